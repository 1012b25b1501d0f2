"""C12: what eigensolver-based optimizers report (the real OptimizationAlgorithm / OptimizationResult / MinimumEigenOptimizer).

Points are values of an uninterpreted sort; a converter chain is a list of any length of arbitrary functions on points (and programs);
a problem is an arbitrary objective and feasibility predicate.
"""
from .common import *
from pv.interp import INLINE
from .c04 import exists_defs, exc_name

OA = PRE + "algorithms.optimization_algorithm."
MEO = PRE + "algorithms.minimum_eigen_optimizer."
Pnt, Prg = z3.DeclareSort("Point"), z3.DeclareSort("Program")
lib.VALUE_KINDS |= {"point", "program"}


def point(t):
    return Rec("point", {"t": t}, ("point", t))


def program(t):
    return Rec("program", {"t": t}, ("program", t))


class Setting:
    """A problem, a chain of K converters, the points before and after them."""

    def __init__(self):
        eng = self.eng = Engine()
        eng.fresh_tok = lambda: 0
        F = z3.Function
        self.val, self.feas, self.sense = F("objective_value", Prg, Pnt, R), F("is_feasible", Prg, Pnt, B), F("sense_of", Prg, I)
        self.interp, self.conv = F("interpret", I, Pnt, Pnt), F("convert", I, Prg, Prg)
        self.K = z3.Int("n_converters")
        # the point after the last t converters have been applied, last one first; the program after the first t
        self.back, self.forth = F("back", I, Pnt, Pnt), F("forth", I, Prg, Prg)
        p, g = z3.Const("p", Pnt), z3.Const("g", Prg)
        t = z3.Int("t")
        i1, c1 = self.back(t + 1, p), self.forth(t + 1, g)
        eng.facts += [self.K >= 0, z3.ForAll([p], self.back(0, p) == p, patterns=[self.back(0, p)]), z3.ForAll([g], self.forth(0, g) == g, patterns=[self.forth(0, g)]),
                      z3.ForAll([g], z3.Or(self.sense(g) == 1, self.sense(g) == -1), patterns=[self.sense(g)])]
        self.step = lambda t, p: self.back(t + 1, p) == self.interp(self.K - 1 - t, self.back(t, p))
        self.stepc = lambda t, g: self.forth(t + 1, g) == self.conv(t, self.forth(t, g))
        H = eng.rec_handlers
        H["converter", "interpret"] = lambda e, a, k: self.on(a[1] if len(a) > 1 else k["x"], "point", lambda x: point(self.interp(a[0].attrs["i"], x)))
        H["converter", "convert"] = lambda e, a, k: self.on(a[1] if len(a) > 1 else k["problem"], "program", lambda x: self.program(self.conv(a[0].attrs["i"], x)))
        H["program", "is_feasible"] = lambda e, a, k: self.on(a[1], "point", lambda x: self.feas(a[0].attrs["t"], x))
        H["objective", "evaluate"] = lambda e, a, k: self.on(a[1], "point", lambda x: self.val(a[0].attrs["t"], x))
        H["point", "__iter__"] = lambda e, a, k: (_ for _ in ()).throw(Unsupported("elements of an abstract point"))
        eng.attr_handlers = getattr(eng, "attr_handlers", {})
        tup = eng.builtins["tuple"]
        eng.builtins["tuple"] = NType("tuple", lambda e, a, k: a[0].attrs["t"] if a and isinstance(a[0], Rec) and a[0].kind == "point" else tup.ctor(e, a, k))
        H["program", "to_ising"] = lambda e, a, k: (Rec("operator", {"of": a[0].attrs["t"], "num_qubits": F("num_qubits", Prg, I)(a[0].attrs["t"])}), F("ising_offset", Prg, R)(a[0].attrs["t"]))
        H["program", "get_num_binary_vars"] = lambda e, a, k: F("num_binary", Prg, I)(a[0].attrs["t"])
        eng.rec_isinstance = lambda v, t: {"converter": ("QuadraticProgramConverter",), "point": ("ndarray",), "program": ("QuadraticProgram",)}.get(v.kind, ()).count(lib.type_name(t)) > 0
        self.prob = z3.Const("problem_arg", Prg)
        b = Binder(freshi(), iv(0), self.K)
        self.convs = eng.new(ListV([Seg([b], TRUE, Rec("converter", {"i": b.var}, ("converter", b.var)))]))
        eng.loop_hooks.append(self.fold)
        self.folds = []

    def on(self, v, kind, f):
        if not (isinstance(v, Rec) and v.kind == kind):
            raise Unsupported("%s expected, got %r" % (kind, v))
        return f(v.attrs["t"])

    def problem(self, t):
        r = program(t)
        return r

    def fold(self, eng, seq, assign, body, sc):
        """A loop over the converters that carries one point (program): after t iterations it is back(t, start) (forth(t, start))."""
        from pv import loops
        if len(seq.segs) != 1 or len(seq.segs[0].binders) != 1 or not isinstance(seq.segs[0].val, Rec) or seq.segs[0].val.kind != "converter":
            return False
        s = seq.segs[0]
        b0 = s.binders[0]
        if not z3.is_true(s.guard) or seq.unordered or not z3.simplify(b0.hi - b0.lo).eq(z3.simplify(self.K)):
            raise Unsupported("loop over some of the converters")
        order = z3.simplify(vsub(s.val, [(b0.var, b0.lo)]).attrs["i"])
        pre0, pc0, limit = eng.cells, eng.pc, eng.next
        carried, dead = set(), set()
        t = freshi("t")
        for rnd in range(3):
            cells = dict(pre0)
            start = {}
            for fid, nm in carried:
                v = pre0[fid].fields[nm]
                start[fid, nm] = v
                f = self.back if v.kind == "point" else self.forth
                cells[fid] = ObjV(cells[fid].cls, dict(cells[fid].fields, **{nm: (point if v.kind == "point" else self.program)(f(t, v.attrs["t"]))}))
            for fid, nm in dead:
                cells[fid] = ObjV(cells[fid].cls, dict(cells[fid].fields, **{nm: Poison("assigned in a loop")}))
            eng.cells, eng.pc = cells, pc0 + [t >= 0, t < self.K]
            eng.binders.append(t)
            val = vsub(s.val, [(b0.var, z3.simplify(b0.lo + t))])
            try:
                ps = eng.explore(lambda: (assign(lib.materialise(eng, val)), body()))
            finally:
                eng.cells, eng.pc = pre0, pc0
                eng.binders.pop()
            if len(ps) != 1 or ps[0].out != "normal":
                if not carried:
                    return False
                raise Unsupported("loop over the converters branches")
            mods = loops._mods(cells, ps[0].cells, limit)
            new = set()
            for c, f in mods:
                if f is None:
                    return False
                v = pre0[c].fields.get(f)
                if isinstance(v, Rec) and v.kind in ("point", "program"):
                    new.add((c, f))
                elif f in pre0[c].fields:
                    if c not in {x.id for x in sc.frames}:
                        raise Unsupported("loop over the converters changes a field")
                    new.add((c, f, 0))
            if {x for x in new if len(x) == 2} <= carried and {x[:2] for x in new if len(x) == 3} <= dead:
                break
            carried |= {x for x in new if len(x) == 2}
            dead |= {x[:2] for x in new if len(x) == 3}
        if not carried:
            return False
        if len(carried) != 1:
            raise Unsupported("loop over the converters carries %d values" % len(carried))
        (fid, nm), = carried
        v = start[fid, nm]
        x0 = v.attrs["t"]
        ptk = v.kind == "point"
        r = ps[0].cells[fid].fields[nm]
        if not (isinstance(r, Rec) and r.kind == v.kind):
            raise Unsupported("carried value")
        hyp = eng.facts + pc0 + [t >= 0, t < self.K, (self.step if ptk else self.stepc)(t, x0)]
        goal = r.attrs["t"] == (self.back if ptk else self.forth)(t + 1, x0)
        self.ctx.valid("%s: loop over the converters: each step applies the next one %s" % (self.tag, "(last first)" if ptk else "(first first)"), hyp, goal)
        cells = dict(eng.cells)
        fl = dict(cells[fid].fields)
        fl[nm] = (point if ptk else self.program)((self.back if ptk else self.forth)(self.K, x0))
        cells[fid] = ObjV(cells[fid].cls, fl)
        for c, f in mods:
            if (c, f) != (fid, nm):
                cells[c] = ObjV(cells[c].cls, dict(cells[c].fields, **{f: Poison("assigned in a loop")}))
        eng.cells = cells
        return True

    def orig(self, x):
        return self.back(self.K, x)


def kcls(eng, nm):
    return eng.resolve(nm)


def setting(ctx, tag):
    S = Setting()
    S.ctx, S.tag = ctx, tag
    eng = S.eng
    sense = {}

    def objective(e, r):
        return Rec("objective", {"t": r.attrs["t"], "sense": SymEnum("ObjSense", S.sense(r.attrs["t"]))}, ("objective", r.attrs["t"]))
    # proved below: _get_feasibility_status
    eng.overrides[OA + "OptimizationAlgorithm._get_feasibility_status"] = NativeV("_get_feasibility_status", lambda e, a, k: S.status(a[-2], a[-1]) if not k and len(a) in (2, 3) else INLINE)
    S.status = lambda g, x: SymEnum("OptimizationResultStatus", z3.If(S.feas(g.attrs["t"], x.attrs["t"]), iv(0), iv(2))) if isinstance(g, Rec) and isinstance(x, Rec) else INLINE
    S.program = lambda t: Rec("program", {"t": t, "objective": objective(eng, program(t)), "variables": Rec("vars", {"t": t}, ("vars", t))}, ("program", t))
    return S


def check_samples(ctx, nm, S, facts, p, P, N, orig, pr):
    """The list describes every original point of the raw samples once, truly, feasible and best first."""
    eng = S.eng
    save, eng.cells = eng.cells, dict(p.cells)
    c = eng.cell(p.val)
    if not isinstance(c, ListV) or len(c.segs) != 1 or len(c.segs[0].binders) != 1 or c.unordered or not z3.is_true(c.segs[0].guard):
        raise Unsupported("samples %r" % (c,))
    s = c.segs[0]
    b = s.binders[0]
    get = lambda nme: (lambda v: v.attrs["t"] if isinstance(v, Rec) else v)(eng.getattr(lib.materialise(eng, s.val), nme))
    x, fv, prob, st = get("x"), real(get("fval")), real(get("probability")), lib.num(lib.enum_term(get("status")))
    eng.cells = save
    if not (isz(x) and x.sort() == Pnt):
        raise Unsupported("sample point %r" % (x,))
    at = lambda t, r: subst(t, [(b.var, r)])
    h = facts + [b.range()]
    i, j = freshi("i"), freshi("j")
    sn = z3.ToReal(S.sense(P))
    ctx.valid(nm + "each objective value is the original objective at the point", h, fv == S.val(P, x))
    ctx.valid(nm + "the status is success exactly for feasible points", h, st == z3.If(S.feas(P, x), iv(0), iv(2)))
    bs = Binder(freshi(), iv(0), N)
    ctx.eq(nm + "the probabilities of the same original point add up", h, prob, mk_sum([bs], orig(bs.var) == x, pr(bs.var)))
    ins = [i >= 0, i < N]
    wit = [z3.And(r >= b.lo, r < b.hi, at(x, r) == orig(i)) for P_, Q_, _ in eng.sorts for r in [Q_(i)] + [Q_(f(i)) for f, _ in lib.FIRST]]
    ctx.valid(nm + "every raw sample is described", facts + ins, z3.Or(*wit))
    ctx.valid(nm + "only original points of raw samples are listed", h, z3.Or(*[z3.And(P_(b.var) >= 0, P_(b.var) < N, x == orig(P_(b.var))) for P_, Q_, _ in eng.sorts]))
    two = [i >= b.lo, i < j, j < b.hi]
    lo, hi = z3.Ints("e1 e2")
    for w, (u, v) in enumerate(((i, j), (j, i))):
        # the two orders of the raw samples behind them
        for P_, Q_, _ in eng.sorts[-1:]:
            ctx.valid("%sno point is listed twice (%d)" % (nm, w), facts + two + [P_(u) < P_(v), P_(i) >= 0, P_(j) >= 0, P_(i) < N, P_(j) < N], at(x, i) != at(x, j))
            ctx.valid("%slisted samples come from different raw samples" % nm, facts + two, P_(i) != P_(j))
    fi, fj = S.feas(P, at(x, i)), S.feas(P, at(x, j))
    ranks = [P_(w) for P_, Q_, _ in eng.sorts for w in (i, j)]
    two2 = instances(facts, [i, j] + ranks) + two
    ctx.valid(nm + "feasible samples first", two2, z3.Implies(fj, fi))
    ctx.valid(nm + "best first", two2 + [fi == fj], sn * S.val(P, at(x, i)) <= sn * S.val(P, at(x, j)))


def samples(ctx):
    S = setting(ctx, "_interpret_samples")
    eng = S.eng
    N = z3.Int("n_samples")
    raw, pr = z3.Function("raw_point", I, Pnt), z3.Function("raw_probability", I, R)
    eng.facts += [N >= 0]
    b = Binder(freshi(), iv(0), N)
    lst = eng.new(ListV([Seg([b], TRUE, Rec("sample", {"x": point(raw(b.var)), "probability": pr(b.var), "fval": z3.Function("raw_fval", I, R)(b.var)}, ("sample", b.var)))]))
    cls = eng.resolve(OA + "OptimizationAlgorithm")
    P = S.prob
    n = 0
    for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(cls, "_interpret_samples"), [S.program(P), lst, S.convs]))):
        nm = "_interpret_samples path %d: " % u
        facts = eng.facts + p.pc + exists_defs(p.pc)
        if p.out == "raise":
            ctx.fact(nm + "does not raise", False, str(p.val))
            continue
        n += 1
        check_samples(ctx, nm, S, facts, p, P, N, lambda i: S.orig(raw(i)), pr)
    ctx.fact("_interpret_samples: some path returns", n > 0)
    ctx.side(eng, prefix="_interpret_samples: ")


def result_record(eng, c, a, k):
    if a:
        raise Unsupported("positional arguments of a result")
    return Rec("result", dict(k, cls=c.name))


def interpreting(ctx):
    """_interpret, for every kind of converters argument and result class."""
    for kind in ("list", "one", "none"):
        for rc in ("OptimizationResult", "MinimumEigenOptimizationResult", "default"):
            tag = "_interpret(%s, %s)" % (kind, rc)
            S = setting(ctx, tag)
            eng = S.eng
            eng.instantiators[OA + "OptimizationResult"] = eng.instantiators[MEO + "MinimumEigenOptimizationResult"] = result_record
            cls = eng.resolve(OA + "OptimizationAlgorithm")
            x0 = z3.Const("x_arg", Pnt)
            conv = {"list": S.convs, "one": Rec("converter", {"i": iv(0)}, ("converter", iv(0))), "none": None}[kind]
            kw = {"x": point(x0), "problem": S.program(S.prob), "converters": conv, "raw_samples": litname("raw")}
            if rc != "default":
                kw["result_class"] = eng.resolve((OA if rc == "OptimizationResult" else MEO) + rc)
            want = {"list": S.back(S.K, x0), "one": S.interp(0, x0), "none": x0}[kind]
            n = 0
            for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(cls, "_interpret"), [], kw))):
                nm = "%s path %d: " % (tag, u)
                facts = eng.facts + p.pc
                if p.out == "raise":
                    ctx.fact(nm + "does not raise", False, str(p.val))
                    continue
                n += 1
                r = p.val
                if not (isinstance(r, Rec) and r.kind == "result"):
                    raise Unsupported("result %r" % (r,))
                at = r.attrs
                ctx.fact(nm + "a result of the class asked for", at["cls"] == ("OptimizationResult" if rc == "default" else rc), at["cls"])
                if not (isinstance(at["x"], Rec) and at["x"].kind == "point"):
                    raise Unsupported("reported point %r" % (at["x"],))
                ctx.valid(nm + "the point is the interpretation, last converter first", facts, at["x"].attrs["t"] == want)
                ctx.valid(nm + "the value is the original objective at the point", facts, real(at["fval"]) == S.val(S.prob, want))
                ctx.valid(nm + "success exactly if the point is feasible in the original problem", facts, lib.num(lib.enum_term(at["status"])) == z3.If(S.feas(S.prob, want), iv(0), iv(2)))
                ctx.valid(nm + "the variables of the original problem", facts, at["variables"].attrs["t"] == S.prob if isinstance(at["variables"], Rec) and at["variables"].kind == "vars" else z3.BoolVal(False))
                ctx.fact(nm + "further arguments are handed on", lib.namelike(at["raw_samples"]) and at["raw_samples"] is kw["raw_samples"] and set(at) == {"cls", "x", "fval", "status", "variables", "raw_samples"}, str(sorted(at)))
            ctx.fact(tag + ": some path returns", n > 0)
            ctx.side(eng, prefix=tag + ": ")
    S = setting(ctx, "_interpret(invalid)")
    eng = S.eng
    cls = eng.resolve(OA + "OptimizationAlgorithm")
    for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(cls, "_interpret"), [point(z3.Const("x_arg", Pnt)), S.program(S.prob), S.convs, eng.resolve(OA + "SolutionSample")]))):
        ctx.fact("_interpret(unrelated class) path %d: is rejected" % u, p.out == "raise" and exc_name(p.val) == "QiskitOptimizationError")


def converting(ctx):
    S = setting(ctx, "_convert")
    eng = S.eng
    cls = eng.resolve(OA + "OptimizationAlgorithm")
    for kind in ("list", "one"):
        conv = S.convs if kind == "list" else Rec("converter", {"i": iv(0)}, ("converter", iv(0)))
        want = S.forth(S.K, S.prob) if kind == "list" else S.conv(0, S.prob)
        for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(cls, "_convert"), [S.program(S.prob), conv]))):
            nm = "_convert(%s) path %d: " % (kind, u)
            ctx.valid(nm + "all converters in order", eng.facts + p.pc, p.val.attrs["t"] == want if p.out != "raise" and isinstance(p.val, Rec) and p.val.kind == "program" else z3.BoolVal(False))
    q = PRE + "converters.quadratic_program_to_qubo.QuadraticProgramToQubo"
    eng.overrides[q] = NType("QuadraticProgramToQubo", lambda e, a, k: Rec("qubo_converter", {"penalty": k.get("penalty", a[0] if a else None)}))
    lam = z3.Real("penalty_arg")
    one = Rec("converter", {"i": iv(0)}, ("converter", iv(0)))
    call = lambda *a: eng.explore(lambda: eng.call(eng.getattr(cls, "_prepare_converters"), list(a)))
    for pen in (None, lam):
        for p in call(None, pen):
            c = p.cells[p.val.id] if p.out != "raise" and isinstance(p.val, Ref) else None
            v = c.segs[0].val if isinstance(c, ListV) and len(c.segs) == 1 else None
            ctx.fact("_prepare_converters(None): the default pipeline with the given penalty", isinstance(v, Rec) and v.kind == "qubo_converter" and v.attrs["penalty"] is pen, str(c))
    for p in call(one, lam):
        c = p.cells[p.val.id] if p.out != "raise" and isinstance(p.val, Ref) else None
        ctx.fact("_prepare_converters(converter): that converter", isinstance(c, ListV) and len(c.segs) == 1 and c.segs[0].val is one, str(c))
    for p in call(S.convs, lam):
        c = p.cells[p.val.id] if p.out != "raise" and isinstance(p.val, Ref) else None
        ctx.fact("_prepare_converters(list): these converters", p.val == S.convs or isinstance(c, ListV) and c.segs == eng.cell(S.convs).segs, str(p.val))
    for p in call(litname("no converter"), None):
        ctx.fact("_prepare_converters(anything else): TypeError", p.out == "raise" and exc_name(p.val) == "TypeError", str(p.val))
    ctx.side(eng, prefix="_convert: ")


def status(ctx):
    S = setting(ctx, "_get_feasibility_status")
    eng = S.eng
    del eng.overrides[OA + "OptimizationAlgorithm._get_feasibility_status"]
    cls = eng.resolve(OA + "OptimizationAlgorithm")
    x = z3.Const("x_arg", Pnt)
    for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(cls, "_get_feasibility_status"), [S.program(S.prob), point(x)]))):
        nm = "_get_feasibility_status path %d: " % u
        ctx.valid(nm + "success exactly if feasible, else infeasible", eng.facts + p.pc, lib.num(lib.enum_term(p.val)) == z3.If(S.feas(S.prob, x), iv(0), iv(2)) if p.out != "raise" else z3.BoolVal(False))


class Solver:
    """MinimumEigenOptimizer over the contracts of what it calls (each proved in this file, except the eigensolver: arbitrary)."""

    def __init__(self, ctx, tag):
        S = self.S = setting(ctx, tag)
        eng = self.eng = S.eng
        F = z3.Function
        self.N, self.raw, self.pr = F("n_raw", Prg, I), F("raw_point", I, Pnt), F("raw_probability", I, R)
        g = z3.Const("g", Prg)
        eng.facts += [z3.ForAll([g], self.N(g) >= 1, patterns=[self.N(g)]), z3.ForAll([g], F("num_qubits", Prg, I)(g) >= 0, patterns=[F("num_qubits", Prg, I)(g)])]
        eng.instantiators[MEO + "MinimumEigenOptimizationResult"] = result_record
        eng.rec_handlers["eigensolver", "compute_minimum_eigenvalue"] = self.compute
        eng.rec_handlers["eigensolver", "supports_aux_operators"] = lambda e, a, k: z3.Bool("returns_eigenstate")
        eng.overrides[OA + "OptimizationAlgorithm._eigenvector_to_solutions"] = NativeV("_eigenvector_to_solutions", self.solutions)
        eng.overrides[OA + "OptimizationAlgorithm._interpret_samples"] = NativeV("_interpret_samples", self.samples)
        q = PRE + "converters.quadratic_program_to_qubo.QuadraticProgramToQubo"
        eng.overrides[q + ".get_compatibility_msg"] = NativeV("get_compatibility_msg", lambda e, a, k: "not a QUBO" if e.branch(z3.Bool("incompatible")) else "")
        self.zero = z3.Const("zero_point", Pnt)
        eng.natives["numpy.zeros"] = NativeV("zeros", lambda e, a, k: point(self.zero))
        self.me = eng.new(ObjV(eng.raw_class(MEO + "MinimumEigenOptimizer"), {"_converters": S.convs, "_penalty": None, "_min_eigen_solver": Rec("eigensolver", {})}))

    def compute(self, eng, a, k):
        op = a[1] if len(a) > 1 else k["operator"]
        if not (isinstance(op, Rec) and op.kind == "operator"):
            raise Unsupported("operator %r" % (op,))
        st = Rec("eigenstate", {"of": op.attrs["of"]}) if eng.branch(z3.Bool("has_eigenstate")) else None
        return Rec("eigenresult", {"of": op.attrs["of"], "eigenstate": st})

    def solutions(self, eng, a, k):
        a = [x for x in a if isinstance(x, Rec)]
        if k or len(a) != 2 or a[0].kind != "eigenstate" or a[1].kind != "program":
            raise Unsupported("_eigenvector_to_solutions arguments")
        self.ctx_ok = a[0].attrs["of"].eq(a[1].attrs["t"])
        g = a[1].attrs["t"]
        b = Binder(freshi(), iv(0), self.N(g))
        return eng.new(ListV([Seg([b], TRUE, Rec("sample", {"x": point(self.raw(b.var)), "fval": self.S.val(g, self.raw(b.var)), "probability": self.pr(b.var)}, ("sample", b.var)))]))

    def samples(self, eng, a, k):
        a = list(a) + list(k.values())
        a = [x for x in a if not isinstance(x, ClassV) and x != self.me]
        return Rec("described", {"problem": a[0], "raw": eng.cell(a[1]), "converters": a[2]})


def instances(facts, terms_):
    """The quantified hypotheses and their instances at the given index terms."""
    out = list(facts)
    for f in facts:
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() <= 2 and all(f.var_sort(k) == I for k in range(f.num_vars())):
            for u in terms_:
                for v in (terms_ if f.num_vars() == 2 else [None]):
                    out.append(z3.substitute_vars(f.body(), *([v, u] if v is not None else [u])))
    return out


def solving(ctx):
    W = Solver(ctx, "MinimumEigenOptimizer.solve")
    eng, S = W.eng, W.S
    P = S.prob
    C = S.forth(S.K, P)
    nq = z3.Function("num_qubits", Prg, I)(C)
    seen = set()
    for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(W.me, "solve"), [S.program(P)]))):
        nm = "MinimumEigenOptimizer.solve path %d: " % u
        facts = eng.facts + p.pc + exists_defs(p.pc)
        if p.out == "raise":
            ctx.fact(nm + "raises QiskitOptimizationError", exc_name(p.val) == "QiskitOptimizationError", exc_name(p.val))
            ctx.valid(nm + "raises only for incompatible problems", facts, z3.Bool("incompatible"))
            continue
        r = p.val
        if not (isinstance(r, Rec) and r.kind == "result"):
            raise Unsupported("result %r" % (r,))
        at = r.attrs
        ctx.valid(nm + "incompatible problems are rejected", facts, z3.Not(z3.Bool("incompatible")))
        ctx.valid(nm + "the variables of the original problem", facts, at["variables"].attrs["t"] == P)
        if at["x"] is None:
            seen.add("failure")
            ctx.valid(nm + "no point only without an eigenstate", facts, z3.And(nq > 0, z3.Not(z3.Bool("has_eigenstate"))))
            ctx.fact(nm + "then the status is failure and there are no samples", isinstance(at["status"], EnumV) and at["status"].name == "FAILURE" and at["fval"] is None and at.get("samples") is None)
            continue
        x = at["x"].attrs["t"]
        ctx.valid(nm + "the value is the original objective at the point", facts, real(at["fval"]) == S.val(P, x))
        ctx.valid(nm + "success exactly if the point is feasible in the original problem", facts, lib.num(lib.enum_term(at["status"])) == z3.If(S.feas(P, x), iv(0), iv(2)))
        d = at["samples"]
        if not (isinstance(d, Rec) and d.kind == "described"):
            raise Unsupported("samples %r" % (d,))
        ctx.fact(nm + "the samples are those of the original problem through all converters", d.attrs["problem"].attrs["t"].eq(P) and d.attrs["converters"] == S.convs)
        ls = d.attrs["raw"]
        rs = at["raw_samples"]
        rs = p.cells[rs.id] if isinstance(rs, Ref) else rs
        if isinstance(rs, ListV) and rs is not ls and not (len(rs.segs) == len(ls.segs) and all(u is v for u, v in zip(rs.segs, ls.segs))):
            raise Unsupported("another list of raw samples")
        ctx.fact(nm + "the raw samples are reported as they are", isinstance(rs, ListV), str(rs))
        if not isinstance(ls, ListV) or len(ls.segs) != 1 or ls.unordered:
            raise Unsupported("raw samples %r" % (ls,))
        s = ls.segs[0]
        sn = z3.ToReal(S.sense(C))
        ok = z3.And(nq > 0, z3.Bool("has_eigenstate"))
        if s.binders:
            seen.add("eigenstate")
            b = s.binders[0]
            i = freshi("i")
            ctx.valid(nm + "samples come from an eigenstate", facts, ok)
            ctx.fact(nm + "the eigenstate is of the converted problem's operator", W.ctx_ok and at["min_eigen_solver_result"].attrs["of"].eq(C), str(at["min_eigen_solver_result"]))
            v = s.val if isinstance(s.val, Rec) else None
            if v is None or v.kind != "sample":
                raise Unsupported("raw sample")
            k = v.ident[1]
            ins = [i >= 0, i < W.N(C)]
            ctx.valid(nm + "the listed raw samples are the measured ones", facts + [b.range(), lib.undg(s.guard)], z3.And(k >= 0, k < W.N(C)))
            wit = [z3.And(w >= b.lo, w < b.hi, subst(lib.undg(s.guard), [(b.var, w)]), subst(k, [(b.var, w)]) == i) for w in [i] + [Q(i) for _, Q, _ in getattr(eng, "sorts", [])]]
            ctx.valid(nm + "every measured sample is among the raw samples", facts + ins, z3.Or(*wit))
            best = z3.Int("best")
            # the reported point belongs to a raw sample with the best converted objective
            ks = [subst(k, [(b.var, iv(0))])]
            ranks = [f(w) for P, Q, _ in getattr(eng, "sorts", []) for f, w in ((Q, i), (P, iv(0)))]
            ctx.valid(nm + "the point is the interpretation of a raw sample with the best converted objective", instances(facts, [iv(0), i] + ranks) + ins, z3.Or(*[
                z3.And(q >= 0, q < W.N(C), x == S.back(S.K, W.raw(q)), sn * S.val(C, W.raw(q)) <= sn * S.val(C, W.raw(i))) for q in ks]))
        else:
            seen.add("trivial")
            ctx.valid(nm + "no measurement only if there is nothing to measure", facts, nq <= 0)
            v = eng_read(eng, p.cells, s.val, "x")
            ctx.valid(nm + "then the point is the interpretation of the zero point", facts, z3.And(v.attrs["t"] == W.zero, x == S.back(S.K, W.zero)))
            ctx.valid(nm + "with probability one", facts, real(eng_read(eng, p.cells, s.val, "probability")) == 1)
    ctx.fact("MinimumEigenOptimizer.solve: eigenstate, failure and trivial problems occur", seen == {"eigenstate", "failure", "trivial"}, str(seen))
    ctx.side(eng, prefix="MinimumEigenOptimizer.solve: ")


class Points:
    """Constructor arguments of a result: a point of n entries (or none), m variables with pairwise different names, s samples (or none)."""

    def __init__(self, x, samples, same=False):
        from .common import vec
        eng = self.eng = setup()
        eng.fresh_tok = lambda: 0
        self.n, self.m, self.s = z3.Ints("n_entries n_variables n_samples")
        if same:
            self.m = self.n
        self.val, self.prob, self.entry = z3.Function("entry", I, R), z3.Function("probability", I, R), z3.Function("sample_entry", I, I, R)
        eng.facts += [self.n >= 0, self.m >= 0, self.s >= 0]
        c, d = Binder(freshi(), iv(0), self.m), Binder(freshi(), iv(0), self.s)
        self.x = vec(self.val, self.n) if x else None
        self.vars = eng.new(ListV([Seg([c], TRUE, Rec("variable", {"name": Name.V(iv(0), c.var)}, ("variable", c.var)))]))
        self.samples = eng.new(ListV([Seg([d], TRUE, Rec("sample", {"probability": self.prob(d.var), "i": d.var, "x": Rec("measured", {"k": d.var}, ("measured", d.var))}, ("sample", d.var)))])) if samples else None
        eng.rec_handlers["measured", "__len__"] = lambda e, a, k: self.n

        def entry(e, a, k):
            i = lib.num(a[1])
            if not e.entailed(z3.And(i >= 0, i < self.n)):
                raise Unsupported("entry of a measured point out of range")
            return self.entry(a[0].attrs["k"], i)
        eng.rec_handlers["measured", "__getitem__"] = entry
        eng.natives["numpy.isclose"] = NativeV("isclose", lambda e, a, k: e.branch(z3.Bool("sum_close_to_one")))
        self.status, self.fval, self.raw = EnumV("OptimizationResultStatus", "FAILURE", 1) if False else litname("status"), z3.Real("fval_arg"), litname("raw_results")


def results(ctx):
    """OptimizationResult: the constructor and what its accessors return."""
    for x in (True, False):
        for smp in (True, False):
            tag = "OptimizationResult(%s, %s)" % ("x" if x else "no x", "samples" if smp else "no samples")
            S = Points(x, smp)
            eng = S.eng
            cls = eng.resolve(OA + "OptimizationResult")
            st = eng.getattr(eng.resolve(OA + "OptimizationResultStatus"), "INFEASIBLE")
            kw = {"x": S.x, "fval": S.fval, "variables": S.vars, "status": st, "raw_results": S.raw, "samples": S.samples}

            def run():
                r = eng.call(cls, [], kw)
                out = {nm: eng.getattr(r, nm) for nm in ("x", "fval", "variables", "status", "raw_results", "variables_dict", "variable_names", "samples")}
                i, j = z3.Ints("i_arg j_arg")
                if x:
                    eng.pc = eng.pc + [i >= 0, i < S.n]
                    out["at"] = eng.call(eng.getattr(r, "__getitem__"), [i])
                    out["named"] = eng.call(eng.getattr(r, "__getitem__"), [Name.V(iv(0), i)])
                return out
            n = 0
            for u, p in enumerate(eng.explore(run)):
                nm = "%s path %d: " % (tag, u)
                facts = eng.facts + p.pc
                if p.out == "raise":
                    ctx.fact(nm + "raises QiskitOptimizationError", exc_name(p.val) == "QiskitOptimizationError", exc_name(p.val))
                    ctx.valid(nm + "raises only for a point of another size than the variables", facts, S.n != S.m if x else z3.BoolVal(False))
                    continue
                n += 1
                o = p.val
                i = z3.Int("i_arg")
                if x:
                    ctx.valid(nm + "a point of another size than the variables is rejected", facts, S.n == S.m)
                    ln, e = vec_at(eng, o["x"], i, p.cells)
                    ctx.valid(nm + "x is the given point", facts, z3.And(ln == S.n, e == S.val(i)))
                    ctx.valid(nm + "result[index] is that entry", facts, real(o["at"]) == S.val(i))
                    ctx.valid(nm + "result[name] is the entry of that variable", facts, real(o["named"]) == S.val(i))
                    save, eng.cells = eng.cells, dict(p.cells)
                    save_pc, eng.pc = eng.pc, list(p.pc)
                    d = lib.getitem(eng, o["variables_dict"], Name.V(iv(0), i))
                    dn = eng.call(eng.builtins["len"], [o["variables_dict"]])
                    eng.cells, eng.pc = save, save_pc
                    ctx.valid(nm + "variables_dict[name] is the entry of that variable", facts, real(d) == S.val(i))
                    ctx.valid(nm + "variables_dict has one entry per variable", facts, lib.num(dn) == S.m)
                else:
                    ctx.fact(nm + "no point", o["x"] is None and o["variables_dict"] is None)
                ctx.valid(nm + "the given objective value", facts, real(o["fval"]) == S.fval)
                ctx.fact(nm + "the given variables, status and raw results", o["variables"] == S.vars and o["status"] is st and o["raw_results"] is S.raw, str(o))
                c = p.cells[o["variable_names"].id]
                k = freshi("k")
                ok = isinstance(c, ListV) and len(c.segs) == 1 and len(c.segs[0].binders) == 1 and not c.unordered
                if not ok:
                    raise Unsupported("variable names %r" % (c,))
                b = c.segs[0].binders[0]
                ctx.valid(nm + "variable_names are the names in order", facts + [k >= 0, k < S.m], z3.And(b.lo == 0, b.hi == S.m, c.segs[0].guard, subst(c.segs[0].val, [(b.var, k)]) == Name.V(iv(0), k)))
                c = o["samples"]
                if c is None:
                    ctx.fact(nm + "samples are reported", False)
                elif S.samples is not None and c == S.samples:
                    ctx.fact(nm + "the given samples are kept", p.cells[c.id] is eng.cell(S.samples))
                else:
                    if S.samples is not None:
                        ctx.valid(nm + "samples are replaced only if none are given", facts, S.s == 0)
                    q = p.cells[c.id]
                    if not (isinstance(q, ListV) and len(q.segs) == 1 and not q.segs[0].binders):
                        raise Unsupported("default samples %r" % (q,))
                    g = lambda w: eng_read(eng, p.cells, q.segs[0].val, w)
                    ctx.fact(nm + "the default sample has the point and the status", (g("x") is S.x or g("x") == o["x"]) and g("status") is st)
                    ctx.valid(nm + "the default sample has the objective value and probability one", facts, z3.And(real(g("fval")) == S.fval, real(g("probability")) == 1))
            ctx.fact(tag + ": some path returns", n > 0)
            ctx.side(eng, prefix=tag + ": ")


def correlations(ctx):
    """get_correlations: entry (i, j), j < i, is the probability of equal minus that of different entries; 0 elsewhere."""
    S = Points(True, True, same=True)
    eng = S.eng
    eng.facts += [S.s >= 1]
    cls = eng.resolve(OA + "OptimizationResult")
    me = eng.new(ObjV(eng.raw_class(OA + "OptimizationResult"), {"_samples": S.samples, "_x": S.x}))
    for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(me, "get_correlations"), []))):
        nm = "get_correlations path %d: " % u
        facts = eng.facts + p.pc
        if p.out == "raise":
            ctx.fact(nm + "does not raise", False, str(p.val))
            continue
        c = p.cells[p.val.id]
        i, j, k = freshi("i"), freshi("j"), freshi("k")
        ctx.valid(nm + "an n by n matrix", facts, z3.And(lib.num(c.shape[0]) == S.n, lib.num(c.shape[1]) == S.n))
        ins = [i >= 0, i < S.n, j >= 0, j < S.n]
        b = Binder(freshi(), iv(0), S.s)
        eq = S.entry(b.var, i) == S.entry(b.var, j)
        want = mk_sum([b], eq, S.prob(b.var)) - mk_sum([b], z3.Not(eq), S.prob(b.var))
        ctx.eq(nm + "below the diagonal: probability of equal minus probability of different entries", facts + ins + [j < i], lib.undg(lib.dsum(c, (i, j))), want)
        ctx.eq(nm + "zero elsewhere", facts + ins + [j >= i], lib.undg(lib.dsum(c, (i, j))), z3.RealVal(0))
    ctx.side(eng, prefix="get_correlations: ")


Bits = z3.DeclareSort("Bitstring")
lib.VALUE_KINDS |= {"bits"}


class Measured:
    """An eigenstate: counts per bit string, amplitudes per bit string, or a vector of amplitudes."""

    def __init__(self):
        eng = self.eng = setup()
        eng.fresh_tok = lambda: 0
        F = z3.Function
        self.n, self.M = z3.Ints("n_qubits n_outcomes")
        self.key, self.cnt = F("outcome", I, Bits), F("count", I, R)
        self.re, self.im = F("amplitude_re", I, R), F("amplitude_im", I, R)
        self.index = F("bits_of_index", I, Bits)
        self.fval = F("objective_of", Bits, B, R)
        self.size = lib.POW2(self.n)
        i, j = z3.Ints("i j")
        eng.facts += [self.n >= 1, self.M >= 1, self.size >= 2,
                      z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < self.M), self.key(i) != self.key(j)), patterns=[z3.MultiPattern(self.key(i), self.key(j))])]
        H = eng.rec_handlers
        bits = lambda t, rev: Rec("bits", {"t": t, "rev": rev}, ("bits", t))
        self.bits = bits

        def flip(e, a, k):
            s = a[1]
            if not isinstance(s, slice) or [s.start, s.stop, s.step] != [None, None, -1]:
                raise Unsupported("part of a bit string")
            return bits(a[0].attrs["t"], not a[0].attrs["rev"])
        H["bits", "__getitem__"] = flip
        H["bits", "__len__"] = lambda e, a, k: self.n
        lst = eng.builtins["list"]
        eng.builtins["list"] = NType("list", lambda e, a, k: a[0] if a and isinstance(a[0], Rec) and a[0].kind == "bits" else lst.ctor(e, a, k))
        rv = eng.builtins["reversed"]
        eng.builtins["reversed"] = NativeV("reversed", lambda e, a, k: bits(a[0].attrs["t"], not a[0].attrs["rev"]) if isinstance(a[0], Rec) and a[0].kind == "bits" else e.call(rv, a, k))

        def fromiter(e, a, k):
            if not (isinstance(a[0], Rec) and a[0].kind == "bits") or lib.type_name(k.get("dtype", a[1] if len(a) > 1 else None)) != "int":
                raise Unsupported("fromiter")
            return Rec("bitpoint", dict(a[0].attrs))
        eng.natives["numpy.fromiter"] = NativeV("fromiter", fromiter)
        self.qubo = Rec("program", {"objective": Rec("objective", {})})
        H["objective", "evaluate"] = lambda e, a, k: self.fval(a[1].attrs["t"], z3.BoolVal(a[1].attrs["rev"])) if isinstance(a[1], Rec) and a[1].kind == "bitpoint" else (_ for _ in ()).throw(Unsupported("evaluation point"))
        # vectors of amplitudes
        H["amps", "conj"] = H["amps", "conjugate"] = lambda e, a, k: Rec("amps", {"cj": not a[0].attrs["cj"], "size": self.size})

        def mul(e, a, k):
            if all(isinstance(x, Rec) and x.kind == "amps" for x in a) and a[0].attrs["cj"] != a[1].attrs["cj"]:
                return Rec("amp2", {})
            raise Unsupported("product of amplitudes")
        H["amps", "__mul__"] = mul

        def npabs(e, a, k):
            if isinstance(a[0], Rec) and a[0].kind == "amp2":
                return vec(lambda i: self.re(i) * self.re(i) + self.im(i) * self.im(i), self.size)
            raise Unsupported("absolute value")
        eng.natives["numpy.abs"] = eng.natives["numpy.absolute"] = NativeV("abs", npabs)

        def log2(e, a, k):
            if isz(a[0]) and z3.simplify(lib.num(a[0])).eq(z3.simplify(self.size)):
                e.assumed.add("numpy.log2 is exact on powers of two")
                return z3.ToReal(self.n)
            raise Unsupported("log2")
        eng.natives["numpy.log2"] = NativeV("log2", log2)
        H["int", "binary"] = lambda e, a, k: Rec("binary", {"i": lib.num(a[0])})

        def pad(e, a, k):
            w = lib.num(a[1])
            i = a[0].attrs["i"]
            if len(a) > 2 and a[2] != "0":
                raise Unsupported("padding")
            if not e.entailed(z3.And(w == self.n, i >= 0, i < self.size)):
                raise Unsupported("padding to another width")
            return bits(self.index(i), False)
        H["binary", "rjust"] = lambda e, a, k: pad(e, a, k) if len(a) == 3 else (_ for _ in ()).throw(Unsupported("padding with blanks"))
        H["binary", "zfill"] = pad
        kinds = {"bits": ("str",), "amps": ("ndarray",), "dictstate": ("DictStateFn", "StateFn"), "vecstate": ("StateFn",), "bitpoint": ("ndarray",)}
        old = eng.rec_isinstance
        eng.rec_isinstance = lambda v, t: lib.type_name(t) in kinds[v.kind] if v.kind in kinds else old(v, t)
        b = Binder(freshi(), iv(0), self.M)
        self.counts = eng.new(DictV([Piece([b], TRUE, bits(self.key(b.var), False), self.cnt(b.var), "set")]))
        H["vecstate", "to_matrix"] = lambda e, a, k: Rec("amps", {"cj": False, "size": self.size})

    def arg(self, kind):
        if kind == "counts":
            return self.counts
        if kind == "dict state":
            return Rec("dictstate", {"primitive": self.counts})
        if kind == "state":
            return Rec("vecstate", {})
        if kind == "array":
            return Rec("amps", {"cj": False, "size": self.size})
        return litname("not a state")


def solutions(ctx):
    """_eigenvector_to_solutions: one sample per outcome of at least the least probability, with qubit i's bit as entry i and the outcome's probability."""
    for kind in ("counts", "dict state", "state", "array", "other"):
        S = Measured()
        eng = S.eng
        tag = "_eigenvector_to_solutions(%s)" % kind
        cls = eng.resolve(OA + "OptimizationAlgorithm")
        low = z3.Real("min_probability_arg")
        n = 0
        for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(cls, "_eigenvector_to_solutions"), [S.arg(kind), S.qubo, low]))):
            nm = "%s path %d: " % (tag, u)
            facts = eng.facts + p.pc
            tb = Binder(freshi(), iv(0), S.M)
            w = {"counts": lambda k: S.cnt(k), "dict state": lambda k: S.cnt(k) * S.cnt(k)}.get(kind)
            if w and p.out == "raise" and exc_name(p.val) == "ZeroDivisionError":
                ctx.valid(nm + "fails to divide only if there are no counts at all", facts, mk_sum([tb], TRUE, w(tb.var)) == 0)
                continue
            if p.out == "raise":
                ctx.fact(nm + "raises only TypeError for other arguments", kind == "other" and exc_name(p.val) == "TypeError", exc_name(p.val))
                continue
            n += 1
            c = p.cells[p.val.id]
            if kind == "other" or not isinstance(c, ListV) or len(c.segs) != 1 or len(c.segs[0].binders) != 1:
                raise Unsupported("solutions %r" % (c,))
            s = c.segs[0]
            b = s.binders[0]
            k = b.var
            g = lambda w: eng_read(eng, p.cells, s.val, w)
            x, fv, pr, st = g("x"), real(lib.undg(g("fval"))), real(lib.undg(g("probability"))), g("status")
            N = S.M if kind in ("counts", "dict state") else S.size
            if w:
                tot = mk_sum([tb], TRUE, w(tb.var))
                want, key = w(k) / tot, S.key(k)
                pos = [tot > 0]
            else:
                want, key, pos = S.re(k) * S.re(k) + S.im(k) * S.im(k), S.index(k), []
            if not (isinstance(x, Rec) and x.kind == "bitpoint"):
                raise Unsupported("sample point %r" % (x,))
            ctx.valid(nm + "outcomes are considered in order, all of them", facts, z3.And(b.lo == 0, b.hi == N))
            ctx.valid(nm + "exactly the outcomes of at least the least probability are kept", facts + [b.range()] + pos, lib.undg(s.guard) == (want >= low))
            hyp = facts + [b.range(), lib.undg(s.guard)] + pos
            ctx.valid(nm + "the probability is the share of the outcome", hyp, pr == want)
            ctx.valid(nm + "the point is that of the outcome", hyp, x.attrs["t"] == key)
            ctx.fact(nm + "qubit i is entry i of the point", x.attrs["rev"] is True, str(x))
            ctx.valid(nm + "the objective value is that of the point", hyp, fv == S.fval(key, TRUE))
            ctx.valid(nm + "every outcome is a success", hyp, lib.num(lib.enum_term(st)) == 0)
        ctx.fact(tag + ": some path returns", n > 0 or kind == "other")
        ctx.side(eng, prefix=tag + ": ")


def constructing(ctx):
    W = Solver(ctx, "MinimumEigenOptimizer.__init__")
    eng = W.eng
    one = Rec("converter", {"i": iv(0)}, ("converter", iv(0)))
    lam = z3.Real("penalty_arg")
    for conv in (one, W.S.convs):
        solver = Rec("eigensolver", {})
        n = 0
        for u, p in enumerate(eng.explore(lambda: eng.call(eng.resolve(MEO + "MinimumEigenOptimizer"), [solver], {"penalty": lam, "converters": conv}))):
            nm = "MinimumEigenOptimizer.__init__ path %d: " % u
            facts = eng.facts + p.pc
            if p.out == "raise":
                ctx.fact(nm + "raises QiskitOptimizationError", exc_name(p.val) == "QiskitOptimizationError", exc_name(p.val))
                ctx.valid(nm + "raises only for solvers without eigenstates", facts, z3.Not(z3.Bool("returns_eigenstate")))
                continue
            n += 1
            f = p.cells[p.val.id].fields
            ctx.valid(nm + "solvers without eigenstates are rejected", facts, z3.Bool("returns_eigenstate"))
            c = p.cells[f["_converters"].id]
            ctx.fact(nm + "the given solver and converters", f["_min_eigen_solver"] is solver and isinstance(c, ListV) and len(c.segs) == 1 and (c.segs[0].val is one if conv is one else f["_converters"] == conv), str(c))
        ctx.fact("MinimumEigenOptimizer.__init__: some path returns", n > 0)
    ctx.side(eng, prefix="MinimumEigenOptimizer.__init__: ")


def eng_read(eng, cells, v, name):
    save, eng.cells = eng.cells, dict(cells)
    r = eng.getattr(lib.materialise(eng, v), name)
    eng.cells = save
    return r


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("the eigensolver returns an arbitrary eigenstate with at least one outcome of at least the least probability",
               "converters, objectives and feasibility: arbitrary functions here; their own contracts are those of C01, C04, C06 to C10",
               "qiskit.opflow states: a DictStateFn has a dict of amplitudes, other StateFn give their vector by to_matrix()",
               "numpy.isclose decides only whether a warning is issued")
    ctx.contract("OptimizationAlgorithm._interpret_samples", samples, par=True)
    ctx.contract("OptimizationAlgorithm._get_feasibility_status", status, par=True)
    ctx.contract("OptimizationAlgorithm._interpret", interpreting, par=True)
    ctx.contract("OptimizationAlgorithm._convert / _prepare_converters", converting, par=True)
    ctx.contract("MinimumEigenOptimizer.solve", solving, par=True)
    ctx.contract("OptimizationResult: constructor and accessors", results, par=True)
    ctx.contract("OptimizationResult.get_correlations", correlations, par=True)
    ctx.contract("OptimizationAlgorithm._eigenvector_to_solutions", solutions, par=True)
    ctx.contract("MinimumEigenOptimizer.__init__", constructing, par=True)
