"""C20: randomised rounding and warm starts (the real GoemansWilliamsonOptimizer / WarmStartQAOAOptimizer functions)."""
from .common import *
from pv import sparse
from .c04 import exists_defs, exc_name

WS = PRE + "algorithms.warm_start_qaoa_optimizer."
GW = PRE + "algorithms.goemans_williamson_optimizer."
SIN, ASIN, SQRT = (z3.Function(x, R, R) for x in ("sin", "arcsin", "sqrt"))
HALF = z3.RealVal("1/2")
BETA = z3.Real("beta_parameter")


def trig():
    y = z3.Real("y")
    return [z3.ForAll([y], z3.Implies(z3.And(y >= -1, y <= 1), SIN(ASIN(y)) == y), patterns=[ASIN(y)]),
            z3.ForAll([y], z3.Implies(y >= 0, z3.And(SQRT(y) >= 0, SQRT(y) * SQRT(y) == y)), patterns=[SQRT(y)]),
            z3.ForAll([y], z3.Implies(z3.And(y >= 0, y <= 1), SQRT(y) <= 1), patterns=[SQRT(y)])]


def warm():
    eng = setup()
    eng.fresh_tok = lambda: 0
    nat = eng.natives
    one = lambda nm, f: NativeV(nm, lambda e, a, k: f(real(a[0])))
    nat["numpy.arcsin"] = nat["math.asin"] = one("arcsin", ASIN)
    nat["numpy.sqrt"] = nat["math.sqrt"] = one("sqrt", SQRT)
    nat["qiskit.circuit.Parameter"] = NType("Parameter", lambda e, a, k: BETA)

    def circuit(e, a, k):
        return e.new(ObjV("Circuit", {"n": lib.num(a[0]), "gates": e.new(ListV([]))}))
    nat["qiskit.QuantumCircuit"] = nat["qiskit.circuit.QuantumCircuit"] = NType("QuantumCircuit", circuit)

    def gate(nm):
        def f(e, a, k):
            l = e.cell(a[0]).fields["gates"]
            e.call(e.getattr(l, "append"), [Rec("gate", {"kind": nm, "angle": real(a[1]), "qubit": lib.num(a[2])})])
        return f
    for nm in ("ry", "rz", "rx"):
        eng.obj_handlers["Circuit", nm] = gate(nm)
    return eng


def factory(ctx):
    eng = warm()
    eps = z3.Real("epsilon_arg")
    n = 0
    for u, p in enumerate(eng.explore(lambda: eng.call(eng.resolve(WS + "WarmStartQAOAFactory"), [eps]))):
        nm = "WarmStartQAOAFactory.__init__ path %d: " % u
        facts = eng.facts + p.pc
        ok = z3.And(eps >= 0, eps <= HALF)
        if p.out == "raise":
            ctx.fact(nm + "raises QiskitOptimizationError", exc_name(p.val) == "QiskitOptimizationError")
            ctx.valid(nm + "rejects only values outside [0, 1/2]", facts, z3.Not(ok))
        else:
            n += 1
            ctx.valid(nm + "values outside [0, 1/2] are rejected", facts, z3.And(ok, real(p.cells[p.val.id].fields["_epsilon"]) == eps))
    ctx.fact("WarmStartQAOAFactory: some path returns", n > 0)
    ctx.side(eng)


def maker(eng):
    eps = z3.Real("epsilon_arg")
    eng.facts += [eps >= 0, eps <= HALF]
    return eng.new(ObjV(eng.raw_class(WS + "WarmStartQAOAFactory"), {"_epsilon": eps})), eps


def one_list(p, ref, what):
    c = p.cells[ref.id] if isinstance(ref, Ref) else None
    if not isinstance(c, ListV) or c.unordered or c.base is not None:
        raise Unsupported("%s %r" % (what, c))
    return c


def clamp(ctx):
    eng = warm()
    me, eps = maker(eng)
    n = z3.Int("n_variables")
    eng.facts += [n >= 0]
    x = z3.Function("relaxed_value", I, R)
    for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(me, "create_initial_variables"), [vec(x, n)]))):
        nm = "create_initial_variables path %d: " % u
        facts = eng.facts + p.pc
        if p.out == "raise":
            ctx.fact(nm + "does not raise", False, str(p.val))
            continue
        i = freshi("i")
        ln, e = vec_at(eng, p.val, i, p.cells)
        ins = [i >= 0, i < n]
        ctx.valid(nm + "one value per variable", facts, ln == n)
        ctx.valid(nm + "each value is the given one clamped into [epsilon, 1 - epsilon]", facts + ins, e == z3.If(x(i) < eps, eps, z3.If(x(i) > 1 - eps, 1 - eps, x(i))))
        ctx.valid(nm + "the values lie in [epsilon, 1 - epsilon]", facts + ins, z3.And(e >= eps, e <= 1 - eps))
    ctx.side(eng, prefix="create_initial_variables: ")


def circuits(ctx):
    for fn, want in (("create_initial_state", lambda th: [("ry", th)]),):
        eng = warm()
        me, eps = maker(eng)
        n = z3.Int("n_variables")
        x = z3.Function("clamped_value", I, R)
        q = z3.Int("q")
        eng.facts += [n >= 0, z3.ForAll([q], z3.And(x(q) >= 0, x(q) <= 1), patterns=[x(q)])]
        for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(me, fn), [vec(x, n)]))):
            nm = "%s path %d: " % (fn, u)
            facts = eng.facts + p.pc
            if p.out == "raise":
                ctx.fact(nm + "does not raise", False, str(p.val))
                continue
            o = p.cells[p.val.id]
            ctx.valid(nm + "one qubit per variable", facts, o.fields["n"] == n)
            c = one_list(p, o.fields["gates"], "gates")
            ctx.fact(nm + "the gates per qubit", len(c.segs) == len(want(z3.RealVal(0))), str(c)[:300])
            i = freshi("i")
            for t, s in enumerate(c.segs):
                if len(s.binders) != 1 or not isinstance(s.val, Rec) or s.val.kind != "gate" or t >= len(want(z3.RealVal(0))):
                    raise Unsupported("gate %r" % (s,))
                b, g = s.binders[0], s.val.attrs
                kind, angle = want(2 * ASIN(SQRT(x(b.var))))[t]
                ctx.valid(nm + "gate %d: one on every qubit" % t, facts, z3.And(b.lo == 0, b.hi == n, z3.ForAll([b.var], z3.Implies(b.range(), z3.And(lib.undg(s.guard), g["qubit"] == b.var)))))
                ctx.fact(nm + "gate %d: kind" % t, g["kind"] == kind, str(s.val))
                ctx.valid(nm + "gate %d: the angle" % t, facts + trig() + [b.range()], g["angle"] == angle)
                ctx.valid(nm + "measuring gives one with the given probability", facts + trig() + [b.range(), SIN(g["angle"] / 2) == SIN(ASIN(SQRT(x(b.var))))],
                          SIN(g["angle"] / 2) * SIN(g["angle"] / 2) == x(b.var))
        ctx.side(eng, prefix=fn + ": ")


def real_elements(eng, seq, assign, body, sc):
    """A loop over all variables of a program that writes attributes of its element: every variable gets the written values."""
    from pv import loops
    if len(seq.segs) != 1 or len(seq.segs[0].binders) != 1 or not isinstance(seq.segs[0].val, Rec) or seq.segs[0].val.kind != "var" or not z3.is_true(seq.segs[0].guard):
        return False
    s = seq.segs[0]
    if not isinstance(eng.iterated, Ref):
        return False
    home = [eng.iterated.id]
    cls = eng.raw_class(PRE + "problems.variable.Variable")
    names = ("name", "lowerbound", "upperbound", "vartype")
    pre0, pc0, limit = eng.cells, eng.pc, eng.next
    eng.cells, eng.pc = dict(pre0), pc0 + [s.binders[0].range()]
    obj = eng.new(ObjV(cls, {"_" + nm: s.val.attrs[nm] for nm in names}))
    before = dict(eng.cells)
    try:
        ps = eng.explore(lambda: (assign(obj), body()))
    finally:
        eng.cells, eng.pc = pre0, pc0
    if len(ps) != 1 or ps[0].out != "normal":
        return False
    for c, f in loops._mods(before, ps[0].cells, limit):
        if c != obj.id and not (f is not None and c in {x.id for x in sc.frames}):
            return False
    f = ps[0].cells[obj.id].fields
    new = Rec("var", dict(s.val.attrs, **{nm: f["_" + nm] for nm in names}), s.val.ident)
    cells = dict(eng.cells)
    cells[home[0]] = ListV([Seg(s.binders, TRUE, new)], cells[home[0]].kind)
    eng.cells = cells
    return True


def relaxing(ctx):
    eng = warm()
    src = Src(eng)
    eng.loop_hooks.append(real_elements)
    P0 = src.ref
    old = {c: v for c, v in eng.cells.items()}
    n = 0
    for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(eng.resolve(WS + "WarmStartQAOAOptimizer"), "_relax_problem"), [P0]))):
        nm = "_relax_problem path %d: " % u
        facts = eng.facts + p.pc
        if p.out == "raise":
            ctx.fact(nm + "does not raise", False, str(p.val))
            continue
        n += 1
        ctx.fact(nm + "a copy", p.val.id != P0.id)
        ctx.fact(nm + "the converted problem itself is not modified", all(p.cells[c] is v for c, v in old.items()), str([c for c, v in old.items() if p.cells[c] is not v]))
        f, g = p.cells[p.val.id].fields, p.cells[P0.id].fields
        vs, ws = p.cells[f["vars"].id], p.cells[g["vars"].id]
        if len(vs.segs) != 1 or len(vs.segs[0].binders) != 1:
            raise Unsupported("variables %r" % (vs,))
        a, b = vs.segs[0], ws.segs[0]
        i = a.binders[0].var
        w = vsub(b.val, [(b.binders[0].var, i)])
        hyp = facts + [a.binders[0].range()]
        ctx.valid(nm + "the same number of variables", facts, z3.And(a.binders[0].lo == b.binders[0].lo, a.binders[0].hi == b.binders[0].hi, a.guard))
        ctx.valid(nm + "every variable is continuous", hyp, lib.enum_term(a.val.attrs["vartype"]) == 0)
        ctx.valid(nm + "same names in the same order", hyp, a.val.attrs["name"] == w.attrs["name"])
        ctx.valid(nm + "same bounds", hyp, z3.And(real(a.val.attrs["lowerbound"]) == real(w.attrs["lowerbound"]), real(a.val.attrs["upperbound"]) == real(w.attrs["upperbound"])))
        ctx.eq(nm + "same objective", facts, aprog.obj_value(f["objective"]), aprog.obj_value(g["objective"]))
        ctx.valid(nm + "same sense", facts, lib.enum_term(f["objective"].attrs["sense"]) == lib.enum_term(g["objective"].attrs["sense"]))
        for kind in ("lcons", "qcons"):
            x, y = p.cells[f[kind].id], p.cells[g[kind].id]
            if len(x.segs) != 1 or len(y.segs) != 1:
                raise Unsupported("constraints %r" % (x,))
            m, b = x.segs[0], x.segs[0].binders[0]
            o, d = vsub(y.segs[0].val, [(y.segs[0].binders[0].var, b.var)]).attrs, y.segs[0].binders[0]
            c = m.val.attrs
            ctx.valid(nm + "as many constraints (%s)" % kind, facts, z3.And(b.lo == d.lo, b.hi == d.hi, m.guard))
            ctx.valid(nm + "same names, senses, right-hand sides (%s)" % kind, facts + [b.range()], z3.And(c["name"] == o["name"], lib.enum_term(c["sense"]) == lib.enum_term(o["sense"]), real(c["rhs"]) == real(o["rhs"])))
            ctx.eq(nm + "same left-hand sides (%s)" % kind, facts + [b.range()], aprog.con_lhs(m.val), aprog.con_lhs(Rec("con", o)))
    ctx.fact("_relax_problem: some path returns", n > 0)
    ctx.side(eng, prefix="_relax_problem: ")


def gw(n_name="n_vertices"):
    eng = warm()
    sparse.install(eng)
    n = z3.Int(n_name)
    eng.facts += [n >= 0]
    return eng, n


def matrix(eng, f, n, kind, guard=lambda i, j: TRUE):
    b, c = Binder(freshi(), iv(0), n), Binder(freshi(), iv(0), n)
    return eng.new(DictV([Piece([b, c], guard(b.var, c.var), (b.var, c.var), f(b.var, c.var))], kind, shape=(n, n)))


def adjacency(ctx):
    """The adjacency matrix is -(Q + Q^T) / 2: for the program of a graph with weights w (Q = -2 w above the diagonal) it is w."""
    eng, n = gw()
    Q = z3.Function("quadratic_coefficient", I, I, R)
    U = lambda i, j: z3.If(i <= j, Q(i, j), z3.RealVal(0))
    full = lambda i, j, sym: z3.If(i == j, Q(i, j), z3.If(i < j, Q(i, j), Q(j, i)) / 2) if sym else U(i, j)

    def to_array(e, a, k):
        sym = k.get("symmetric", a[1] if len(a) > 1 else False)
        if not isinstance(sym, bool):
            raise Unsupported("to_array")
        return sparse.mk(e, (n, n), lambda i, j: full(i, j, sym), "arr")
    eng.rec_handlers["quadexpr", "to_array"] = to_array      # contract of property C01
    quad = Rec("quadexpr", {"coefficients": matrix(eng, Q, n, "dok", lambda i, j: i <= j)})
    prob = Rec("program", {"objective": Rec("objective", {"quadratic": quad})})
    cls = eng.resolve(GW + "GoemansWilliamsonOptimizer")
    for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(cls, "_extract_adjacency_matrix"), [prob]))):
        nm = "_extract_adjacency_matrix path %d: " % u
        facts = eng.facts + p.pc
        if p.out == "raise":
            ctx.fact(nm + "does not raise", False, str(p.val))
            continue
        eng.cells, save = dict(p.cells), eng.cells
        sh, f, _ = sparse.mat(eng, p.val)
        eng.cells = save
        i, j = freshi("i"), freshi("j")
        ins = [i >= 0, i < n, j >= 0, j < n]
        ctx.valid(nm + "an n by n matrix", facts, z3.And(lib.num(sh[0]) == n, lib.num(sh[1]) == n))
        ctx.eq(nm + "entry (i, j) is minus half the coefficient of x_i x_j", facts + ins + [i != j], f(i, j), -z3.If(i < j, Q(i, j), Q(j, i)) / 2)
        ctx.eq(nm + "the diagonal is minus the squared coefficient", facts + ins + [i == j], f(i, j), -Q(i, i))
    ctx.side(eng, prefix="_extract_adjacency_matrix: ")


def cut_value(ctx):
    """max_cut_value is the weight of the edges from ones to zeros, hence the objective of the max-cut program at x."""
    eng, n = gw()
    W, x = z3.Function("weight", I, I, R), z3.Function("x", I, R)
    q, r = z3.Ints("q r")
    cls = eng.resolve(GW + "GoemansWilliamsonOptimizer")
    adj = matrix(eng, W, n, "arr")
    for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(cls, "max_cut_value"), [vec(x, n), adj]))):
        nm = "max_cut_value path %d: " % u
        facts = eng.facts + p.pc
        if p.out == "raise":
            ctx.fact(nm + "does not raise", False, str(p.val))
            continue
        b, c = Binder(freshi(), iv(0), n), Binder(freshi(), iv(0), n)
        cut = mk_sum([b, c], TRUE, W(b.var, c.var) * x(b.var) * (1 - x(c.var)))
        ctx.eq(nm + "the weight from ones to zeros", facts, real(p.val), cut)
    # lemma: the cut value is the objective of the max-cut program  sum_{i<j} w_ij (x_i (1 - x_j) + x_j (1 - x_i)) = sum_i (sum_j w_ij) x_i - sum_{i<j} 2 w_ij x_i x_j
    S = z3.Function("upper_weight", I, I, R)
    bs = lambda: (Binder(freshi(), iv(0), n), Binder(freshi(), iv(0), n))

    def two(f):
        (b, c), (d, e) = bs(), bs()
        return mk_sum([b, c], b.var < c.var, S(b.var, c.var) * f(b.var, c.var)) + mk_sum([d, e], d.var > e.var, S(e.var, d.var) * f(d.var, e.var))
    d, e = bs()
    obj = two(lambda i, j: x(i)) + mk_sum([d, e], d.var < e.var, -2 * S(d.var, e.var) * x(d.var) * x(e.var))
    ctx.eq("lemma: the objective of a max-cut program is the cut value of its adjacency matrix", eng.facts, obj, two(lambda i, j: x(i) * (1 - x(j))))
    ctx.side(eng, prefix="max_cut_value: ")


Pt = z3.DeclareSort("Assignment")


class Runs:
    """R results with n(r) samples each; a dictionary filled from them is a finite map given by the samples seen so far.

    Stated invariant of a dictionary after the samples before (r, s): its keys are their assignments (seen), and each component of its
    values is the total probability of the samples with that assignment (total), or the objective value or status of the assignment."""

    def __init__(self, ctx):
        self.ctx = ctx
        eng = self.eng = warm()
        F = z3.Function
        self.R, self.n = z3.Int("n_results"), F("n_samples", I, I)
        self.X, self.P = F("assignment", I, I, Pt), F("probability", I, I, R)
        self.f, self.st, self.dim = F("objective_at", Pt, R), F("status_at", Pt, I), z3.Int("dim")
        self.entry = F("entry", Pt, I, R)
        self.seen, self.total = F("seen", I, I, Pt, B), F("total_probability", I, I, Pt, R)
        self.M, self.key, self.rank = z3.Int("n_keys"), F("key", I, Pt), F("rank", Pt, I)
        r, s, m, k = z3.Int("r"), z3.Int("s"), z3.Int("m"), z3.Const("k", Pt)
        eng.facts += [self.R >= 0, self.dim >= 0, self.M >= 0, z3.ForAll([r], self.n(r) >= 0, patterns=[self.n(r)]),
                      z3.ForAll([k], z3.Not(self.seen(0, 0, k)), patterns=[self.seen(0, 0, k)]),
                      z3.ForAll([k], self.total(0, 0, k) == 0, patterns=[self.total(0, 0, k)])]
        self.at_end = [z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < self.M), z3.And(self.seen(self.R, 0, self.key(m)), self.rank(self.key(m)) == m)), patterns=[self.key(m)]),
                       z3.ForAll([k], z3.Implies(self.seen(self.R, 0, k), z3.And(self.rank(k) >= 0, self.rank(k) < self.M, self.key(self.rank(k)) == k)), patterns=[self.seen(self.R, 0, k)])]
        b = Binder(freshi(), iv(0), self.R)
        self.arg = eng.new(ListV([Seg([b], TRUE, Rec("wresult", {"r": b.var}, ("wresult", b.var)))]))

        def samples(e, o):
            r = o.attrs["r"]
            c = Binder(freshi(), iv(0), self.n(r))
            x = self.X(r, c.var)
            return e.new(ListV([Seg([c], TRUE, Rec("wsample", {"r": r, "s": c.var, "x": Rec("assignment", {"t": x}), "fval": self.f(x), "probability": self.P(r, c.var),
                                                           "status": SymEnum("OptimizationResultStatus", self.st(x))}, ("wsample", r, c.var)))]))
        H = eng.rec_handlers
        H["wresult", "samples"] = (samples,)

        def entries(e, a, k):
            c = Binder(freshi(), iv(0), self.dim)
            return SeqV([Seg([c], TRUE, self.entry(a[0].attrs["t"], c.var))])
        H["assignment", "__iter__"] = entries
        H["assignment", "tolist"] = lambda e, a, k: a[0]
        tup = eng.builtins["tuple"]
        eng.builtins["tuple"] = NType("tuple", lambda e, a, k: self.whole(e, a[0]) if a and self.whole(e, a[0]) is not None else tup.ctor(e, a, k))
        arr = eng.natives["numpy.array"]
        back = NativeV("array", lambda e, a, k: Rec("assignment", {"t": a[0]}) if isz(a[0]) and a[0].sort() == Pt else a[0] if isinstance(a[0], Rec) and a[0].kind == "assignment" else e.call(arr, a, k))
        eng.natives["numpy.array"] = eng.natives["numpy.asarray"] = back
        O = eng.obj_ops
        O["FMap", "__contains__"] = lambda e, a, k: e.cell(a[0]).fields["has"](self.as_key(a[1]))
        O["FMap", "__getitem__"] = self.read
        O["FMap", "__setitem__"] = self.write
        O["FMap", "__iter__"] = lambda e, a, k: self.keys(e, a[0], lambda m: self.key(m))
        Hh = eng.obj_handlers
        Hh["FMap", "get"] = lambda e, a, k: self.read(e, a[:2], {}) if e.branch(e.cell(a[0]).fields["has"](self.as_key(a[1]))) else (a[2] if len(a) > 2 else None)
        Hh["FMap", "keys"] = lambda e, a, k: self.keys(e, a[0], lambda m: self.key(m))
        Hh["FMap", "values"] = lambda e, a, k: self.keys(e, a[0], lambda m: self.value(e.cell(a[0]), self.key(m)))
        Hh["FMap", "items"] = lambda e, a, k: self.keys(e, a[0], lambda m: (self.key(m), self.value(e.cell(a[0]), self.key(m))))
        Hh["FMap", "setdefault"] = self.setdefault
        eng.loop_hooks.append(self.loop)
        self.level, self.plan, self.shapes = 0, {}, {}

    def as_key(self, v):
        if isz(v) and v.sort() == Pt:
            return v
        raise Unsupported("dictionary key %r" % (v,))

    def whole(self, e, v):
        """The assignment all of whose entries, in order, are listed."""
        if isinstance(v, Rec) and v.kind == "assignment":
            return v.attrs["t"]
        c = e.cell(v) if isinstance(v, Ref) else v
        if isinstance(c, (SeqV, ListV)) and len(c.segs) == 1 and len(c.segs[0].binders) == 1 and z3.is_true(c.segs[0].guard) and not c.unordered:
            s = c.segs[0]
            b, t = s.binders[0], s.val
            if isz(t) and z3.is_app(t) and t.decl().eq(self.entry) and t.arg(1).eq(b.var) and z3.is_int_value(b.lo) and b.lo.as_long() == 0 and b.hi.eq(self.dim):
                return t.arg(0)
        return None

    # ---- the map
    def value(self, c, k):
        vs = [w(f(k)) for f, w in zip(c.fields["comps"], c.fields["wrap"])]
        return vs[0] if c.fields["scalar"] else tuple(vs)

    def read(self, e, a, k):
        c = e.cell(a[0])
        key = self.as_key(a[1])
        if not e.branch(c.fields["has"](key)):
            e.raise_("KeyError")
        return self.value(c, key)

    def write(self, e, a, k):
        c = e.cell(a[0])
        key, v = self.as_key(a[1]), a[2]
        vs = v if isinstance(v, tuple) else (v,)
        terms_ = [(x.term, "enum") if isinstance(x, SymEnum) else (real(x), "num") for x in vs]
        shape = (not isinstance(v, tuple), tuple(t for _, t in terms_))
        f = c.fields
        if f["shape"] is not None and f["shape"] != shape:
            raise Unsupported("values of different shapes")
        if f["discover"] is not None:
            f["discover"].append(shape)
            f = dict(f, comps=[lambda k, s=(R if t == "num" else I): z3.Function("unknown", Pt, s)(k) for t in shape[1]])
        has, comps = f["has"], f["comps"]
        wrap = [(lambda t: SymEnum("OptimizationResultStatus", t)) if t == "enum" else (lambda t: t) for t in shape[1]]
        new = dict(f, has=lambda k: z3.simplify(z3.Or(k == key, has(k))), comps=[lambda k, t=t, o=o: z3.If(k == key, t, o(k)) for (t, _), o in zip(terms_, comps)],
                   scalar=shape[0], shape=shape, wrap=wrap)
        e.cells[a[0].id] = ObjV("FMap", new)

    def setdefault(self, e, a, k):
        if not e.branch(e.cell(a[0]).fields["has"](self.as_key(a[1]))):
            self.write(e, a, {})
        return self.read(e, a[:2], {})

    def keys(self, e, ref, f):
        if not e.cell(ref).fields.get("final"):
            raise Unsupported("iteration over a dictionary in the middle")
        for x in self.at_end:
            if all(x is not y for y in e.facts):
                e.facts.append(x)
        b = Binder(freshi(), iv(0), self.M)
        return SeqV([Seg([b], TRUE, f(b.var))])

    # ---- loops with the stated invariant
    def state(self, c, r, s):
        comps = []
        for kind in self.plan[c][1]:
            comps.append({"total": lambda k: self.total(r, s, k), "value": lambda k: self.f(k), "status": lambda k: self.st(k)}[kind])
        shape = self.plan[c][0]
        wrap = [(lambda t: SymEnum("OptimizationResultStatus", t)) if t == "enum" else (lambda t: t) for t in shape[1]]
        return ObjV("FMap", {"has": lambda k: self.seen(r, s, k), "comps": comps, "wrap": wrap, "scalar": shape[0], "shape": shape, "discover": None})

    def holds(self, eng, name, cid, cell, r, s, hyp):
        k = z3.Const("k_any", Pt)
        want = self.state(cid, r, s)
        out = [("keys", cell.fields["has"](k) == want.fields["has"](k))]
        out += [("component %d is the %s" % (u, self.plan[cid][1][u]), z3.Implies(want.fields["has"](k), f(k) == g(k))) for u, (f, g) in enumerate(zip(cell.fields["comps"], want.fields["comps"]))]
        return [(name + w, hyp, g) for w, g in out]

    def loop(self, eng, seq, assign, body, sc):
        if len(seq.segs) != 1 or len(seq.segs[0].binders) != 1 or not isinstance(seq.segs[0].val, Rec) or seq.segs[0].val.kind not in ("wresult", "wsample"):
            return False
        sg = seq.segs[0]
        b = sg.binders[0]
        kind = sg.val.kind
        if seq.unordered or not z3.is_true(sg.guard) or not (z3.is_int_value(z3.simplify(b.lo)) and z3.simplify(b.lo).as_long() == 0):
            raise Unsupported("loop over part of the results")
        if kind == "wresult" and not z3.simplify(b.hi).eq(self.R):
            raise Unsupported("loop over part of the results")
        if kind == "wresult":
            maps = [c for c, v in eng.cells.items() if isinstance(v, DictV) and v.kind == "dict" and not v.pieces and v.base is None]
            if not maps:
                return False
            return self.outer(eng, sg, b, maps, assign, body, sc)
        if self.level != 1:
            return False
        return self.inner(eng, sg, b, assign, body, sc)

    def outer(self, eng, sg, b, maps, assign, body, sc):
        pre = dict(eng.cells)
        # the shape of the values, by running the body once on an empty map
        found = {c: [] for c in maps}
        self.level = 1
        try:
            for c in maps:
                eng.cells[c] = ObjV("FMap", {"has": lambda k: z3.BoolVal(False), "comps": [], "wrap": [], "scalar": True, "shape": None, "discover": found[c]})
            self.plan = None
            eng.cells, cells0, pc0 = dict(eng.cells), eng.cells, eng.pc
            eng.pc = pc0 + [b.range(), self.n(sg.val.attrs["r"]) > 0]
            try:
                eng.explore(lambda: (assign(lib.materialise(eng, sg.val)), body()))
            finally:
                eng.cells, eng.pc = pre, pc0
            maps = [c for c in maps if found[c]]
            if not maps:
                return False
            shapes = {c: found[c][0] for c in maps}
            r = b.var
            for plan in self.plans(shapes):
                self.plan = plan
                goals, failed = [], None
                eng.cells = dict(pre)
                for c in maps:
                    eng.cells[c] = self.state(c, r, iv(0))
                self.goals = goals
                start = dict(eng.cells)
                eng.pc = pc0 + [b.range()]
                limit = eng.next
                try:
                    ps = eng.explore(lambda: (assign(lib.materialise(eng, sg.val)), body()))
                finally:
                    eng.cells, eng.pc = pre, pc0
                self.frame(eng, ps, start, limit, sc, maps)
                nxt = [z3.ForAll([z3.Const("k", Pt)], z3.And(self.seen(r + 1, 0, z3.Const("k", Pt)) == self.seen(r, self.n(r), z3.Const("k", Pt)),
                                                          self.total(r + 1, 0, z3.Const("k", Pt)) == self.total(r, self.n(r), z3.Const("k", Pt))))]
                for p in ps:
                    for c in maps:
                        goals += self.holds(eng, "after one more result: ", c, p.cells[c], r + 1, iv(0), eng.facts + pc0 + [b.range()] + p.pc + nxt)
                from pv.norm import Prover
                if all(Prover(h, 3000).valid(g, 3000)[0] for _, h, g in goals) or plan is self.last:
                    break
            for nm, h, g in goals:
                self.ctx.valid("MeanAggregator.aggregate: invariant: " + nm, h, g)
            eng.cells = dict(pre)
            for c in maps:
                v = self.state(c, self.R, iv(0))
                eng.cells[c] = ObjV("FMap", dict(v.fields, final=True))
            return True
        finally:
            self.level = 0

    def plans(self, shapes):
        import itertools
        opts = [(c, u, ["status"] if t == "enum" else ["value", "total"]) for c, (_, ts) in shapes.items() for u, t in enumerate(ts)]
        ps = []
        for pick in itertools.product(*[o for _, _, o in opts]):
            plan = {c: (sh, [None] * len(sh[1])) for c, sh in shapes.items()}
            for (c, u, _), w in zip(opts, pick):
                plan[c][1][u] = w
            ps.append(plan)
        # the plausible plan first and last: exactly one total
        ps.sort(key=lambda q: sum(w == "total" for v in q.values() for w in v[1]) != 1)
        self.last = ps[0]
        return ps[:1] + ps[1:] + ps[:1]

    def frame(self, eng, ps, start, limit, sc, maps):
        from pv import loops
        for p in ps:
            if p.out != "normal":
                raise Unsupported("loop over the results ends early")
            for c, f in loops._mods(start, p.cells, limit):
                if c not in maps and c not in {x.id for x in sc.frames}:
                    raise Unsupported("loop over the results changes something else")

    def inner(self, eng, sg, b, assign, body, sc):
        r = sg.val.attrs["r"]
        if self.plan is None:        # discovery: one iteration
            ps = None
            cells0, pc0 = eng.cells, eng.pc
            eng.cells, eng.pc = dict(cells0), pc0 + [b.range()]
            try:
                eng.explore(lambda: (assign(lib.materialise(eng, sg.val)), body()))
            finally:
                eng.cells, eng.pc = cells0, pc0
            return True
        if not z3.simplify(b.hi).eq(z3.simplify(self.n(r))):
            raise Unsupported("loop over some of the samples")
        s = b.var
        maps = list(self.plan)
        pre, pc0 = eng.cells, eng.pc
        for c in maps:
            self.goals += self.holds(eng, "before the samples of a result: ", c, pre[c], r, iv(0), eng.facts + pc0)
        eng.cells = dict(pre)
        for c in maps:
            eng.cells[c] = self.state(c, r, s)
        start, limit = dict(eng.cells), eng.next
        eng.pc = pc0 + [b.range()]
        try:
            ps = eng.explore(lambda: (assign(lib.materialise(eng, sg.val)), body()))
        finally:
            eng.cells, eng.pc = pre, pc0
        self.frame(eng, ps, start, limit, sc, maps)
        k = z3.Const("k", Pt)
        x = self.X(r, s)
        step = [z3.ForAll([k], z3.And(self.seen(r, s + 1, k) == z3.Or(k == x, self.seen(r, s, k)),
                                      self.total(r, s + 1, k) == self.total(r, s, k) + z3.If(k == x, self.P(r, s), z3.RealVal(0)),
                                      z3.Implies(z3.Not(self.seen(r, s, k)), self.total(r, s, k) == 0)))]
        for p in ps:
            for c in maps:
                self.goals += self.holds(eng, "after one more sample: ", c, p.cells[c], r, s + 1, eng.facts + pc0 + [b.range()] + p.pc + step)
        eng.cells = dict(pre)
        for c in maps:
            eng.cells[c] = self.state(c, r, self.n(r))
        return True


def aggregating(ctx):
    S = Runs(ctx)
    eng = S.eng
    me = eng.new(ObjV(eng.raw_class(WS + "MeanAggregator"), {}))
    n = 0
    # totals vanish for assignments not seen: by induction over the samples
    k, r, s = z3.Const("k", Pt), z3.Int("r"), z3.Int("s")
    x = S.X(r, s)
    ctx.valid("lemma: the total probability of an assignment not seen is zero (next sample)",
              [S.seen(r, s + 1, k) == z3.Or(k == x, S.seen(r, s, k)), S.total(r, s + 1, k) == S.total(r, s, k) + z3.If(k == x, S.P(r, s), z3.RealVal(0)), z3.Implies(z3.Not(S.seen(r, s, k)), S.total(r, s, k) == 0)],
              z3.Implies(z3.Not(S.seen(r, s + 1, k)), S.total(r, s + 1, k) == 0))
    ctx.valid("lemma: the total probability of an assignment not seen is zero (start)", eng.facts, z3.Implies(z3.Not(S.seen(0, 0, k)), S.total(0, 0, k) == 0))
    for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(me, "aggregate"), [S.arg]))):
        nm = "MeanAggregator.aggregate path %d: " % u
        facts = eng.facts + p.pc
        if p.out == "raise":
            ctx.valid(nm + "raises only without results", facts, z3.And(z3.BoolVal(exc_name(p.val) == "ZeroDivisionError"), S.R == 0))
            continue
        n += 1
        c = one_list(p, p.val, "aggregated samples")
        if len(c.segs) != 1 or len(c.segs[0].binders) != 1:
            raise Unsupported("aggregated samples %r" % (c,))
        sg = c.segs[0]
        b = sg.binders[0]
        eng.cells, save = dict(p.cells), eng.cells
        g = lambda w: eng.getattr(lib.materialise(eng, sg.val), w)
        x, fv, pr, st = g("x"), real(g("fval")), real(g("probability")), lib.num(lib.enum_term(g("status")))
        eng.cells = save
        if not (isinstance(x, Rec) and x.kind == "assignment"):
            raise Unsupported("aggregated point %r" % (x,))
        x = x.attrs["t"]
        i, q = freshi("i"), z3.Const("q", Pt)
        at = lambda t, j: subst(t, [(b.var, j)])
        hyp = facts + [b.range(), sg.guard]
        ctx.valid(nm + "each sample is at an assignment of some sample", hyp, S.seen(S.R, 0, x))
        ctx.valid(nm + "every assignment of some sample is described", facts + [S.seen(S.R, 0, q)], z3.And(S.rank(q) >= b.lo, S.rank(q) < b.hi, at(x, S.rank(q)) == q, at(sg.guard, S.rank(q))))
        ctx.valid(nm + "no assignment is described twice", facts + [i >= b.lo, i < b.var, b.var < b.hi], at(x, i) != x)
        ctx.valid(nm + "the probability is the mean over the results", hyp + [S.R > 0], pr == S.total(S.R, 0, x) / z3.ToReal(S.R))
        ctx.valid(nm + "objective value and status are those of the assignment", hyp, z3.And(fv == S.f(x), st == S.st(x)))
    ctx.fact("MeanAggregator.aggregate: some path returns", n > 0)
    ctx.side(eng, prefix="MeanAggregator.aggregate: ")


def build(ctx):
    ctx.assume(*BASIC)
    ctx.contract("WarmStartQAOAFactory.__init__", factory, par=True)
    ctx.contract("WarmStartQAOAFactory.create_initial_variables", clamp, par=True)
    ctx.contract("WarmStartQAOAFactory.create_initial_state", circuits, par=True)
    ctx.contract("WarmStartQAOAOptimizer._relax_problem", relaxing, par=True)
    ctx.contract("GoemansWilliamsonOptimizer._extract_adjacency_matrix", adjacency, par=True)
    ctx.contract("GoemansWilliamsonOptimizer.max_cut_value", cut_value, par=True)
    ctx.contract("MeanAggregator.aggregate", aggregating, par=True)
    ctx.assume("numpy.arcsin / numpy.sqrt are exact: sin(arcsin y) = y on [-1, 1], sqrt(y)^2 = y on y >= 0",
               "qiskit circuits: QuantumCircuit(n).ry(angle, i) appends that rotation to qubit i; measuring RY(a)|0> yields one with probability sin(a/2)^2",
               "the objective value and the status of a sample are functions of its assignment (C12)")
    ctx.beyond("GoemansWilliamsonOptimizer.solve, _get_unique_cuts", "order and uniqueness of the cuts after list.sort and removal over strings of digits: bounded check")
    ctx.beyond("GoemansWilliamsonOptimizer._solve_max_cut_sdp, _generate_random_cuts", "semidefinite solver and random cuts: quality is not part of the property")
    ctx.beyond("WarmStartQAOAOptimizer.solve", "the QAOA run (assignment to the mixer and initial state of an external object) is checked with a recording sub-solver")
