"""C05: variable substitution (the real SubstituteVariables on a symbolic program and a symbolic substitution)."""
from .common import *
from .c04 import exists_facts, exc_name

MOD = PRE + "problems.quadratic_program"
CONST = "__CONSTANT__"


class Subs:
    """A substitution as _subs_dict leaves it: mode 0 (kept), 1 (by a constant), 2 (by a multiple of a kept variable)."""

    def __init__(self, eng, src):
        F = z3.Function
        self.mode, self.to, self.val = F("sm", I, I), F("st", I, I), F("sv", I, R)
        i = z3.Int("qi")
        s, n = self, src.n
        eng.facts += [z3.ForAll([i], z3.And(s.mode(i) >= 0, s.mode(i) <= 2), patterns=[s.mode(i)]),
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, s.mode(i) == 2), z3.And(s.to(i) >= 0, s.to(i) < n, s.mode(s.to(i)) == 0, s.val(i) != 0)),
                                patterns=[s.to(i)])]
        b1, b2 = src.bi(), src.bi()
        self.dict = DictV([Piece([b1], s.mode(b1.var) == 1, V(b1.var, src.prog), (litname(CONST), s.val(b1.var))),
                           Piece([b2], s.mode(b2.var) == 2, V(b2.var, src.prog), (V(s.to(b2.var), src.prog), s.val(b2.var)))])
        self.src = src

    def factor(self, i):
        """the original variable i is factor(i) * (value of its target), or val(i) itself for a constant"""
        return z3.If(self.mode(i) == 0, z3.RealVal(1), self.val(i))

    def x(self, i):
        """value of the original variable i at the extended point"""
        s = self
        return z3.If(s.mode(i) == 0, pt(V(i, s.src.prog)), z3.If(s.mode(i) == 1, s.val(i), s.val(i) * pt(V(s.to(i), s.src.prog))))


def coefs(eng, rec, deg):
    return Rec("coef", {"d": rec.attrs["d"], "deg": deg})


def coef_nnz(eng, rec):
    """number of stored entries: zero only if all entries are zero, positive only if some key was set"""
    d = rec.attrs["d"]
    deg = rec.attrs["deg"]
    ex = bor(*[mk_exists(p.binders, p.guard) for p in d.pieces])
    val = value_at(d, deg)
    vs = list(eng.binders)
    qs = [z3.Const("nq%d" % k, v.sort()) for k, v in enumerate(vs)]
    m = list(zip(vs, qs))
    ex, val = z3.simplify(subst(ex, m)), z3.simplify(subst(val, m))
    key = (deg, len(vs), ex.sexpr(), val.sexpr())
    if key not in eng.nnz:
        f = z3.Function("nnz_%d" % len(eng.nnz), *([q.sort() for q in qs] + [I])) if qs else z3.Int("nnz_%d" % len(eng.nnz))
        eng.nnz[key] = f
        eng.nnz_ex.append((qs, ex))
        n = f(*qs) if qs else f
        fact = z3.And(n >= 0, z3.Implies(n > 0, ex), z3.Implies(n == 0, val == 0))
        eng.facts.append(z3.ForAll(qs, fact, patterns=[n]) if qs else fact)
    f = eng.nnz[key]
    return f(*vs) if vs else f


def coef_add(eng, a, k):
    x, y = a
    if not all(isinstance(v, Rec) and v.kind == "coef" for v in a) or x.attrs["deg"] != y.attrs["deg"]:
        raise Unsupported("sum of coefficients")
    return Rec("coef", {"d": DictV([Piece(p.binders, p.guard, p.key, p.val, "add") for p in x.attrs["d"].pieces + y.attrs["d"].pieces]), "deg": x.attrs["deg"]})


def make_expr(deg):
    def fn(eng, a, k):
        vals = dict(zip(["quadratic_program", "coefficients"], a))
        vals.update(k)
        d = name_keyed(eng, vals["quadratic_program"], vals["coefficients"], deg)
        return Rec("lin" if deg == 1 else "quad", {"d": d, "coefficients": Rec("coef", {"d": d, "deg": deg})})
    return fn


def engine():
    eng = setup()
    src = Src(eng, integral_bounds=False)
    eng.overrides[PRE + "problems.linear_expression.LinearExpression"] = NType("LinearExpression", make_expr(1))
    eng.overrides[PRE + "problems.quadratic_expression.QuadraticExpression"] = NType("QuadraticExpression", make_expr(2))
    eng.rec_handlers["coef", "__add__"] = coef_add
    eng.rec_handlers["coef", "nnz"] = (coef_nnz,)
    eng.nnz, eng.nnz_ex, eng.grow = {}, [], {}
    eng.obj_handlers["AProg", "linear_constraints"] = (growing("lcons"),)
    eng.obj_handlers["AProg", "quadratic_constraints"] = (growing("qcons"),)
    sub = Subs(eng, src)
    dst = new_prog(eng, [litname("problem")], {})
    b = src.bi()
    v = src.var(b.var, eng.fresh_tok())
    eng.put(eng.cell(dst).fields["vars"], ListV([Seg([b], sub.mode(b.var) == 0, v)]))
    cls = eng.resolve(MOD + ".SubstituteVariables")
    me = eng.new(ObjV(cls, {"_src": src.ref, "_dst": dst, "_subs": eng.new(sub.dict)}))
    return eng, src, sub, dst, me


def growing(field):
    """The destination's constraints, read while the loop adds to them: some list of constraints with some names."""
    def get(eng, o):
        ref = fields(eng, o)[field]
        c = eng.cell(ref)
        if c.base is None:
            return ref
        key = (field, ref.id, repr(c.segs), len(eng.binders))
        if key not in eng.grow:
            k = len(eng.grow)
            so = [v.sort() for v in eng.binders]
            eng.grow[key] = z3.Function("grown_len_%d" % k, *(so + [I])), z3.Function("grown_name_%d" % k, *(so + [I, Name]))
        ln, nm = eng.grow[key]
        b = Binder(freshi(), iv(0), ln(*eng.binders))
        return eng.new(ListV([Seg([b], TRUE, Rec("con", {"name": nm(*(list(eng.binders) + [b.var]))}, ("grown", key)))]))
    return get


def each(ctx, eng, tag, thunk):
    """The returning paths of a call (which must not raise)."""
    n = 0
    for t, p in enumerate(eng.explore(thunk)):
        nm = "%s path %d: " % (tag, t)
        if p.out == "raise":
            ctx.valid(nm + "does not raise", eng.facts + p.pc, z3.BoolVal(False))
            continue
        n += 1
        eng.cells = dict(p.cells)
        yield nm, eng.facts + p.pc, p
    ctx.fact(tag + ": some path returns", n > 0)
    ctx.side(eng, prefix=tag + ": ")


def linear_expression(ctx):
    eng, src, sub, dst, me = engine()
    expr = src.lin(src.L, src.stL)
    for nm, facts, p in each(ctx, eng, "_linear_expression", lambda: eng.call(eng.getattr(me, "_linear_expression"), [expr])):
        const, lin = p.val
        ctx.eq(nm + "value at the extended point", facts, const_sum(eng, const) + lin_value(lin), src.lin_val(src.L, src.stL, sub.x))
        keys_kept(ctx, nm, eng, facts, src, sub, lin, 1)
    return [eng]


def quadratic_expression(ctx):
    eng, src, sub, dst, me = engine()
    expr = src.quad(src.Q, src.stQ)
    for nm, facts, p in each(ctx, eng, "_quadratic_expression", lambda: eng.call(eng.getattr(me, "_quadratic_expression"), [expr])):
        const, lin, quad = p.val
        ctx.eq(nm + "value at the extended point", facts, const_sum(eng, const) + lin_value(lin) + quad_value(quad), src.quad_val(src.Q, src.stQ, sub.x))
        keys_kept(ctx, nm, eng, facts, src, sub, lin, 1)
        keys_kept(ctx, nm, eng, facts, src, sub, quad, 2)
    return [eng]


def keys_kept(ctx, nm, eng, facts, src, sub, rec, deg):
    """Only kept variables occur."""
    for k, q in enumerate(rec.attrs["d"].pieces):
        hyp = facts + [b.range() for b in q.binders] + [lib.undg(q.guard)]
        for key in (q.key if deg == 2 else (q.key,)):
            j = Name.vi(key)
            ctx.valid("%sonly kept variables occur (%d, degree %d)" % (nm, k, deg), hyp, z3.And(key == V(j, src.prog), j >= 0, j < src.n, sub.mode(j) == 0))


def objective(ctx):
    eng, src, sub, dst, me = engine()
    for nm, facts, p in each(ctx, eng, "_objective", lambda: eng.call(eng.getattr(me, "_objective"), [])):
        o = fields(eng, dst)["objective"]
        ctx.fact(nm + "reports feasible", p.val is True)
        ctx.valid(nm + "same sense", facts, lib.enum_term(o.attrs["sense"]) == src.sense)
        ctx.eq(nm + "value at the extended point", facts, obj_value(o), src.obj_val(sub.x))
        ctx.fact(nm + "the source program is left as it was", src.untouched(p.cells))
    return [eng]


def con_common(ctx, nm, eng, facts, src, sub, lst, hi, lhs, sense, rhs, name, what, gs, c, renamed=None):
    """Segments of surviving constraints: value, sense and name; adds the survival conditions (at c) to gs."""
    if lst.unordered is True:
        raise Unsupported("order of the constraints")
    for k, s in enumerate(lst.segs):
        if len(s.binders) != 1 or not isinstance(s.val, Rec):
            raise Unsupported("constraint segment %r" % (s,))
        b = s.binders[0]
        at = s.val.attrs
        h = facts + [b.range(), s.guard]
        ctx.valid("%s%s %d: range" % (nm, what, k), facts, z3.And(b.lo == 0, b.hi == hi))
        if renamed is None:
            ctx.valid("%s%s %d: same name" % (nm, what, k), h, at["name"] == name(b.var))
        ctx.valid("%s%s %d: same sense" % (nm, what, k), h, at["sense"].term == sense(b.var))
        if renamed is None:
            ctx.eq("%s%s %d: lhs - rhs equal at the extended point" % (nm, what, k), h, con_lhs(s.val) - at["rhs"], lhs(b.var, sub.x) - rhs(b.var))
        else:
            # the quadratic part vanishes because none of its entries is stored: the lemma splits the value
            m = [(b.var, c)]
            con = vsub(s.val, m)
            ctx.valid("%s%s %d: lhs - rhs equal at the extended point" % (nm, what, k), [subst(x, m) for x in h] + renamed,
                      con_lhs(con) - con.attrs["rhs"] == lhs(c, sub.x) - rhs(c))
        keys_kept(ctx, "%s%s %d: " % (nm, what, k), eng, h, src, sub, at["linear"], 1)
        if "quadratic" in at:
            keys_kept(ctx, "%s%s %d: " % (nm, what, k), eng, h, src, sub, at["quadratic"], 2)
        gs.append(lib.undg(subst(s.guard, [(b.var, c)])))


def con_at(eng, src, quad, c):
    s = eng.cells[fields(eng, src.ref)["qcons" if quad else "lcons"].id].segs[0]
    return vsub(s.val, [(s.binders[0].var, c)])


def lemma(ctx, tag, eng, src, sub, me, quad, c):
    """The constraint's value at the extended point, split the way the real code splits it: [(facts)] for a generic constraint c."""
    con = con_at(eng, src, quad, c)
    out = []
    rng = [c >= 0, c < (src.q if quad else src.m)]
    lhs = (src.lhs_q if quad else src.lhs_l)(c, sub.x)

    def go():
        a = eng.call(eng.getattr(me, "_linear_expression"), [con.attrs["linear"]])
        b = eng.call(eng.getattr(me, "_quadratic_expression"), [con.attrs["quadratic"]]) if quad else None
        return a, b
    save = dict(eng.cells)
    eng.binders.append(c)
    ps = eng.explore(go)
    eng.binders.pop()
    for t, p in enumerate(ps):
        if p.out == "raise":
            continue
        eng.cells = dict(p.cells)
        a, b = p.val
        tot = const_sum(eng, a[0]) + lin_value(a[1])
        if quad:
            tot = tot + const_sum(eng, b[0]) + lin_value(b[1]) + quad_value(b[2])
        ctx.eq("%slemma: value split by substitution (%d)" % (tag, t), eng.facts + p.pc + rng, lhs, tot)
        out.append(z3.Implies(band(*p.pc), lhs == tot))
    eng.cells = save
    return out


def flag_and_survival(ctx, nm, eng, facts, p, src, sub, quad, gs, c, lem):
    """Dropped constraints hold at every extended point iff the flag stays up; only constraints without kept variables are dropped-as-contradictory."""
    hi = src.q if quad else src.m
    sense, rhs = (src.ds, src.drhs) if quad else (src.cs, src.crhs)
    lhs = (src.lhs_q if quad else src.lhs_l)(c, sub.x)
    ok = aprog.holds(sense(c), lhs, rhs(c))
    dropped = z3.Not(bor(*gs)) if gs else z3.BoolVal(True)
    v = z3.BoolVal(p.val) if isinstance(p.val, bool) else p.val
    rng = [c >= 0, c < hi]
    kept = has_kept(src, sub, quad, c)
    h = facts + rng + lem
    ctx.valid(nm + "a dropped constraint of a feasible result holds at every extended point", h + exists_facts(band(v, *p.pc)) + [v, dropped], ok)
    ctx.valid(nm + "a surviving constraint mentions a kept variable", h + exists_facts(band(*gs)) + nnz_defs(eng, c) + [bor(*gs)], kept)
    # the flag goes down only because of a dropped constraint that fails
    w = [a for a in sum_apps(v, EXISTS)]
    if z3.is_true(v):
        return
    if len(w) != 1:
        raise Unsupported("flag %s" % v)
    bs, g = open_def(w[0], EXISTS)
    if len(bs) != 1:
        raise Unsupported("flag %s" % v)
    m = [(bs[0].var, c)]
    ctx.valid(nm + "the flag goes down only if some iteration clears it", facts + [z3.Not(w[0])], v)
    ctx.valid(nm + "the flag goes down only for a constraint that fails", h + [subst(lib.undg(g), m), subst(bs[0].range(), m)], z3.And(dropped, z3.Not(ok)))


def nnz_defs(eng, c):
    """What 'some key was set' means for the constraint c."""
    out = []
    for qs, ex in eng.nnz_ex:
        if len(qs) == 1:
            out += exists_facts(subst(ex, [(qs[0], c)]))
    return out


def has_kept(src, sub, quad, c):
    b = src.bi()
    st = src.dst if quad else src.cst
    t = z3.Exists([b.var], z3.And(b.range(), st(c, b.var), sub.mode(b.var) != 1))
    if quad:
        b1, b2 = src.bi(), src.bi()
        t = z3.Or(t, z3.Exists([b1.var, b2.var], z3.And(b1.range(), b2.range(), src.dstQ(c, b1.var, b2.var), z3.Or(sub.mode(b1.var) != 1, sub.mode(b2.var) != 1))))
    return t


def linear_constraints(ctx):
    eng, src, sub, dst, me = engine()
    c = freshi("c")
    lem = lemma(ctx, "_linear_constraints: ", eng, src, sub, me, False, c)
    for nm, facts, p in each(ctx, eng, "_linear_constraints", lambda: eng.call(eng.getattr(me, "_linear_constraints"), [])):
        ctx.fact(nm + "the source program is left as it was", src.untouched(p.cells))
        gs = []
        con_common(ctx, nm, eng, facts, src, sub, eng.cell(fields(eng, dst)["lcons"]), src.m, src.lhs_l, src.cs, src.crhs, Name.LN, "surviving", gs, c)
        flag_and_survival(ctx, nm, eng, facts, p, src, sub, False, gs, c, lem)
    return [eng]


def quadratic_constraints(ctx):
    eng, src, sub, dst, me = engine()
    c = freshi("c")
    lem = lemma(ctx, "_quadratic_constraints: ", eng, src, sub, me, True, c)
    for nm, facts, p in each(ctx, eng, "_quadratic_constraints", lambda: eng.call(eng.getattr(me, "_quadratic_constraints"), [])):
        ctx.fact(nm + "the source program is left as it was", src.untouched(p.cells))
        gs = []
        con_common(ctx, nm, eng, facts, src, sub, eng.cell(fields(eng, dst)["qcons"]), src.q, src.lhs_q, src.ds, src.drhs, Name.QN, "surviving", gs, c)
        con_common(ctx, nm, eng, facts, src, sub, eng.cell(fields(eng, dst)["lcons"]), src.q, src.lhs_q, src.ds, src.drhs, Name.QN, "surviving as linear", gs, c, lem)
        for a in range(len(gs)):
            for b in range(a):
                ctx.valid("%sno constraint survives twice (%d %d)" % (nm, b, a), facts + [c >= 0, c < src.q], z3.Not(z3.And(gs[a], gs[b])))
        flag_and_survival(ctx, nm, eng, facts, p, src, sub, True, gs, c, lem)
    return [eng]


INF = real(1e20)


def inb(l, u, y):
    """l <= y <= u, where bounds of 1e20 and beyond are no bounds"""
    return z3.And(z3.Or(l <= -INF, l <= y), z3.Or(u >= INF, y <= u))


class Tighten:
    """Invariant of the loop over the substitution that tightens the kept variables' bounds.

    D is the set of substitutions processed so far, X an arbitrary point with |X(j)| < 1e20.  Ghost state: A(j) = every i in D
    substituted by a multiple of j has val(i) * X(j) within the bounds of i;  C = every constant in D is within its bounds.
    """

    def __init__(self, ctx, eng, src, sub, dst):
        self.ctx, self.eng, self.src, self.sub, self.dst = ctx, eng, src, sub, dst
        self.X = z3.Function("X", I, R)
        self.end = None
        j = z3.Int("qj")
        eng.facts += [z3.ForAll([j], z3.And(self.X(j) < INF, self.X(j) > -INF), patterns=[self.X(j)]),
                      z3.ForAll([j], z3.And(src.lb(j) < INF, src.ub(j) > -INF), patterns=[src.lb(j)])]
        self.writes = eng.new(ObjV("ghost", {"w": ()}))
        for f in ("lowerbound", "upperbound"):
            eng.rec_handlers["dvar", f] = (self.read(f),)
            eng.rec_handlers["dvar", f + "="] = self.write(f)
        for f in ("name", "vartype"):
            eng.rec_handlers["dvar", f] = ((lambda f: (lambda e, r: r.attrs["_" + f]))(f),)

    def key(self, r):
        return r.attrs["_i"]

    def read(self, f):
        def get(eng, r):
            v = r.attrs["_" + f]
            for i, g, x in eng.cell(self.writes).fields["w"]:
                if g == f:
                    same = i == self.key(r)
                    if not eng.entailed(same):
                        raise Unsupported("bounds of two variables in one step")
                    v = x
            return v
        return get

    def write(self, f):
        def put(eng, r, val):
            val = lib.undg(real(val))
            lo, hi = (val, self.read("upperbound")(eng, r)) if f == "lowerbound" else (self.read("lowerbound")(eng, r), val)
            eng.obls.append(("bounds stay ordered at every assignment", list(eng.pc), lo <= hi))
            eng.put(self.writes, ObjV("ghost", {"w": eng.cell(self.writes).fields["w"] + ((self.key(r), f, val),)}))
        return put

    def dvar(self, i, lo, hi, tok):
        return Rec("dvar", {"_name": V(i, self.src.prog), "name": V(i, self.src.prog), "_i": i, "_lowerbound": lo, "_upperbound": hi, "_vartype": SymEnum("VarType", self.src.vt(i))}, (tok, i))

    def state(self, k):
        return dict(lo=z3.Function("lbc%s" % k, I, R), hi=z3.Function("ubc%s" % k, I, R), A=z3.Function("A%s" % k, I, B), C=z3.Bool("C%s" % k), F=z3.Bool("F%s" % k))

    def inv(self, st, j):
        """the invariant's conjuncts for a kept variable j"""
        s, X = self.src, self.X
        lo, hi, A, C, F = st["lo"](j), st["hi"](j), st["A"](j), st["C"], st["F"]
        jj = z3.Int("qjj")
        kept = lambda t: z3.And(t >= 0, t < s.n, self.sub.mode(t) == 0)
        everything = z3.And(C, z3.ForAll([jj], z3.Implies(kept(jj), z3.And(inb(s.lb(jj), s.ub(jj), X(jj)), st["A"](jj))), patterns=[s.lb(jj)]))
        return [("the bounds of a kept variable stay ordered", z3.Implies(kept(j), lo <= hi)),
                ("feasible: the bounds say exactly that the original and the processed bounds hold", z3.Implies(z3.And(kept(j), F), inb(lo, hi, X(j)) == z3.And(inb(s.lb(j), s.ub(j), X(j)), A))),
                ("feasible: the processed constants are within bounds", z3.Implies(F, C)),
                ("infeasible: no point satisfies all bounds", z3.Implies(z3.Not(F), z3.Not(everything)))]

    def assume_inv(self, st):
        j = z3.Int("qj")
        fs = self.inv(st, j)
        return [z3.ForAll([j], fs[0][1], patterns=[st["lo"](j)]), z3.ForAll([j], fs[1][1], patterns=[st["lo"](j)]), fs[2][1], fs[3][1]]

    def hook(self, eng, seq, assign, body, sc):
        sub, src, ctx = self.sub, self.src, self.ctx
        if len(seq.segs) != 2 or not all(len(s.binders) == 1 and isinstance(s.val, tuple) and len(s.val) == 2 for s in seq.segs):
            return False
        for s, p in zip(seq.segs, sub.dict.pieces):
            m = [(p.binders[0].var, s.binders[0].var)]
            if not (isz(s.val[0]) and s.val[0].eq(subst(p.key, m)) and s.guard.eq(subst(p.guard, m)) and isinstance(s.val[1], tuple)):
                return False
        if self.end is not None:
            raise Unsupported("several loops over the substitution")
        lst = fields(eng, self.dst)["vars"]
        tag = "_variables: loop over the substitution: "
        # ---- entry: the destination holds exactly the kept variables, unchanged and in order
        c = eng.cell(lst)
        if len(c.segs) != 1 or c.unordered or len(c.segs[0].binders) != 1:
            raise Unsupported("destination variables %r" % (c.segs,))
        s0 = c.segs[0]
        b = s0.binders[0]
        at = s0.val.attrs
        h = eng.facts + eng.pc + [b.range()]
        ctx.valid(tag + "entry: exactly the kept variables are there", h, z3.And(b.lo == 0, b.hi == src.n, lib.undg(s0.guard) == (sub.mode(b.var) == 0)))
        ctx.valid(tag + "entry: with the same name, type and bounds", h + [s0.guard], z3.And(at["name"] == V(b.var, src.prog), real(at["lowerbound"]) == src.lb(b.var),
                  real(at["upperbound"]) == src.ub(b.var), lib.enum_term(at["vartype"]) == src.vt(b.var)))
        # ---- one step from an arbitrary state that satisfies the invariant
        pre0, pc0, limit = eng.cells, eng.pc, eng.next
        flags = set()
        j = freshi("j")
        for rnd in range(3):
            st = self.state("")
            results, mods = [], set()
            for k, s in enumerate(seq.segs):
                bb, g, val = refresh(s.binders, s.guard, s.val)
                i = bb[0].var
                cells = dict(pre0)
                b2 = src.bi()
                cells[lst.id] = ListV([Seg([b2], sub.mode(b2.var) == 0, self.dvar(b2.var, st["lo"](b2.var), st["hi"](b2.var), 77))])
                for (cid, f) in flags:
                    fl = dict(cells[cid].fields)
                    fl[f] = st["F"]
                    cells[cid] = ObjV(cells[cid].cls, fl)
                eng.cells, eng.pc = cells, pc0 + [bb[0].range(), g] + self.assume_inv(st)
                eng.binders.append(i)
                try:
                    paths = eng.explore(lambda: (assign(lib.materialise(eng, val)), body()))
                finally:
                    eng.cells, eng.pc = pre0, pc0
                    eng.binders.pop()
                from pv import loops
                for p in paths:
                    if p.out == "raise":
                        results.append((k, i, p, [bb[0].range(), g], True))
                        continue
                    if p.out not in ("normal", "continue"):
                        raise Unsupported("loop left by %s" % p.out)
                    mods |= loops._mods(cells, p.cells, limit)
                    results.append((k, i, p, [bb[0].range(), g], False))
            new = {u for u in mods if u[1] is not None and isinstance(pre0[u[0]].fields.get(u[1]), bool)}
            if new <= flags:
                break
            flags |= new
        else:
            raise Unsupported("flags do not stabilise")
        if len(flags) != 1:
            raise Unsupported("flags of the loop: %s" % flags)
        (fc, fn), = flags
        ctx.fact(tag + "entry: the flag is up", pre0[fc].fields[fn] is True)
        for u in mods:
            if u[1] is None:
                raise Unsupported("the loop modifies a container")
        for t, (k, i, p, hyp, raises) in enumerate(results):
            nm = "%s%s substitution, path %d: " % (tag, ("constant", "variable")[k], t)
            facts = eng.facts + p.pc + pc0 + hyp + self.assume_inv(st)
            if raises:
                ctx.valid(nm + "does not raise", facts, z3.BoolVal(False))
                continue
            y, X = sub.val(i), self.X
            ws = p.cells[self.writes.id].fields["w"]
            to = sub.to(i)
            lo1, hi1 = st["lo"], st["hi"]
            ends = {"lowerbound": None, "upperbound": None}
            for (w, f, val) in ws:
                ctx.valid(nm + "only the target's bounds change", facts, w == to)
                ends[f] = val
            st1 = dict(lo=lambda a: lo1(a) if ends["lowerbound"] is None else z3.If(a == to, ends["lowerbound"], lo1(a)),
                       hi=lambda a: hi1(a) if ends["upperbound"] is None else z3.If(a == to, ends["upperbound"], hi1(a)))
            F1 = p.cells[fc].fields[fn]
            st1["F"] = z3.BoolVal(F1) if isinstance(F1, bool) else F1
            cond = inb(src.lb(i), src.ub(i), y * X(to))
            if k == 0:
                st1["A"] = lambda a: st["A"](a)
                st1["C"] = z3.And(st["C"], z3.And(src.lb(i) <= y, y <= src.ub(i)))
            else:
                st1["A"] = lambda a: z3.And(st["A"](a), z3.Implies(a == to, cond))
                st1["C"] = st["C"]
            lem = []
            if k == 1:
                # y * x compared with a bound, as x compared with the bound divided by y
                x = X(to)
                for bnd in (src.lb(i), src.ub(i)):
                    lem += [z3.Implies(y > 0, (bnd / y <= x) == (bnd <= y * x)), z3.Implies(y > 0, (bnd / y >= x) == (bnd >= y * x)),
                            z3.Implies(y < 0, (bnd / y <= x) == (bnd >= y * x)), z3.Implies(y < 0, (bnd / y >= x) == (bnd <= y * x))]
                if t == min(a for a, r in enumerate(results) if r[0] == 1):
                    aa, yy, xx = z3.Reals("a y x")
                    ctx.valid(tag + "lemma: division by a positive number", [yy > 0], z3.And((aa / yy <= xx) == (aa <= yy * xx), (aa / yy >= xx) == (aa >= yy * xx)))
                    ctx.valid(tag + "lemma: division by a negative number", [yy < 0], z3.And((aa / yy <= xx) == (aa >= yy * xx), (aa / yy >= xx) == (aa <= yy * xx)))
            for what, goal in self.inv(st1, j):
                ctx.valid(nm + what, facts + lem, goal)
        # ---- exit: the invariant with every substitution processed
        self.end = st = self.state("_end")
        cells = dict(pre0)
        b3 = src.bi()
        cells[lst.id] = ListV([Seg([b3], sub.mode(b3.var) == 0, self.dvar(b3.var, st["lo"](b3.var), st["hi"](b3.var), 78))])
        for (cid, f) in mods:
            if cid == self.writes.id:
                continue
            fl = dict(cells[cid].fields)
            fl[f] = st["F"] if (cid, f) in flags else Poison("assigned in a loop")
            cells[cid] = ObjV(cells[cid].cls, fl)
        eng.cells = cells
        for f in self.assume_inv(st):
            eng.pc.append(f)
        return True


def variables(ctx):
    eng, src, sub, dst, me = engine()
    eng.put(eng.cell(dst).fields["vars"], ListV([]))

    def add_variable(e, a, k):
        vals = dict(zip(["lowerbound", "upperbound", "vartype", "name"], a[1:]))
        vals.update(k)
        lst = fields(e, a[0])["vars"]
        lo, hi = real(vals["lowerbound"]), real(vals["upperbound"])
        e.obls.append(("variable bounds are ordered", list(e.pc), lo <= hi))
        v = Rec("var", {"name": as_name(e, vals["name"]), "lowerbound": lo, "upperbound": hi, "vartype": vals["vartype"]}, (e.fresh_tok(), as_name(e, vals["name"])))
        lib.append(e, lst, v)
        return v
    eng.obj_handlers["AProg", "_add_variable"] = add_variable
    T = Tighten(ctx, eng, src, sub, dst)
    eng.loop_hooks.append(T.hook)
    T.end = None

    def go():
        T.end = None
        return eng.call(eng.getattr(me, "_variables"), [])
    for nm, facts, p in each(ctx, eng, "_variables", go):
        if T.end is None:
            raise Unsupported("no loop over the substitution")
        v = z3.BoolVal(p.val) if isinstance(p.val, bool) else p.val
        if not (isz(v) and v.sort() == B):
            raise Unsupported("result %r" % (p.val,))
        ctx.fact(nm + "the source program is left as it was", src.untouched(p.cells))
        c = eng.cell(fields(eng, dst)["vars"])
        if len(c.segs) != 1 or len(c.segs[0].binders) != 1 or c.unordered:
            raise Unsupported("destination variables")
        s = c.segs[0]
        b = s.binders[0]
        lo, hi = T.read("lowerbound")(eng, s.val), T.read("upperbound")(eng, s.val)
        h = facts + [b.range(), s.guard]
        ctx.valid(nm + "exactly the kept variables, in order", facts + [b.range()], z3.And(b.lo == 0, b.hi == src.n, lib.undg(s.guard) == (sub.mode(b.var) == 0)))
        ctx.valid(nm + "names and types are kept", h, z3.And(s.val.attrs["_name"] == V(b.var, src.prog), lib.enum_term(s.val.attrs["_vartype"]) == src.vt(b.var)))
        ctx.valid(nm + "bounds are ordered", h, lo <= hi)
        j, x = b.var, T.X(b.var)
        ctx.valid(nm + "feasible: bounds hold exactly if the original and all substituted bounds hold", h + [v], inb(lo, hi, x) == z3.And(inb(src.lb(j), src.ub(j), x), T.end["A"](j)))
        ctx.valid(nm + "feasible: all constants are within bounds", facts + [v], T.end["C"])
        jj = z3.Int("qjj")
        ctx.valid(nm + "infeasible: no point satisfies all bounds", facts + [z3.Not(v), T.end["C"],
                  z3.ForAll([jj], z3.Implies(z3.And(jj >= 0, jj < src.n, sub.mode(jj) == 0), z3.And(inb(src.lb(jj), src.ub(jj), T.X(jj)), T.end["A"](jj))))], z3.BoolVal(False))
    return [eng]


class Build:
    """Invariant of the loops that build the substitution: after a items, the dict holds exactly the first a items (keyed by variable
    name) after the ones of the previous loop, and the first a items are valid.  Items may name variables by name or by index: a key
    only determines the variable's index."""

    def __init__(self, ctx, eng, src):
        F = z3.Function
        self.ctx, self.eng, self.src = ctx, eng, src
        self.nc, self.nv = z3.Int("nc"), z3.Int("nv")
        self.ci, self.cv = F("ci", I, I), F("cv", I, R)
        self.vi, self.vj, self.vv = F("vi", I, I), F("vj", I, I), F("vv", I, R)
        a = z3.Int("qa")
        rng = lambda t: z3.And(t >= 0, t < src.n)
        eng.facts += [self.nc >= 0, self.nv >= 0, z3.ForAll([a], rng(self.ci(a)), patterns=[self.ci(a)]), z3.ForAll([a], rng(self.vi(a)), patterns=[self.vi(a)]),
                      z3.ForAll([a], rng(self.vj(a)), patterns=[self.vj(a)])]
        self.done = []
        old = eng.obj_handlers["AProg", "get_variable"]
        eng.obj_handlers["AProg", "get_variable"] = lambda e, x, k: src.var(x[1].attrs["i"], 5) if isinstance(x[1], Rec) and x[1].kind == "vkey" else old(e, x, k)

    def key(self, t):
        return Rec("vkey", {"i": t})

    def consts(self):
        b = Binder(freshi(), iv(0), self.nc)
        return self.eng.new(DictV([Piece([b], TRUE, self.key(self.ci(b.var)), self.cv(b.var))]))

    def vars(self):
        b = Binder(freshi(), iv(0), self.nv)
        return self.eng.new(DictV([Piece([b], TRUE, self.key(self.vi(b.var)), (self.key(self.vj(b.var)), self.vv(b.var)))]))

    def pieces(self, nc, nv):
        """Content of the substitution after nc constants and nv variables."""
        b1, b2 = Binder(freshi(), iv(0), nc), Binder(freshi(), iv(0), nv)
        P = self.src.prog
        out = []
        if not z3.is_int_value(z3.simplify(nc)) or z3.simplify(nc).as_long():
            out.append(Piece([b1], TRUE, V(self.ci(b1.var), P), (litname(CONST), self.cv(b1.var))))
        if not z3.is_int_value(z3.simplify(nv)) or z3.simplify(nv).as_long():
            out.append(Piece([b2], TRUE, V(self.vi(b2.var), P), (V(self.vj(b2.var), P), self.vv(b2.var))))
        return out

    def step_c(self, a):
        """item a of the constants is valid after the earlier ones"""
        b = z3.Int("qb")
        return z3.Not(z3.Exists([b], z3.And(b >= 0, b < a, self.ci(b) == self.ci(a))))

    def step_v(self, a, nc):
        b = z3.Int("qb")
        ex = lambda hi, t: z3.Exists([b], z3.And(b >= 0, b < hi, t))
        i, j = self.vi(a), self.vj(a)
        return z3.And(self.vv(a) != 0, i != j, z3.Not(ex(nc, self.ci(b) == i)), z3.Not(ex(a, self.vi(b) == i)),
                      z3.Not(ex(nc, self.ci(b) == j)), z3.Not(ex(a, self.vi(b) == j)), z3.Not(ex(a, self.vj(b) == i)))

    def hook(self, eng, seq, assign, body, sc):
        if len(seq.segs) != 1 or len(seq.segs[0].binders) != 1:
            return False
        s = seq.segs[0]
        if not (isinstance(s.val, tuple) and len(s.val) == 2 and isinstance(s.val[0], Rec) and s.val[0].kind == "vkey" and z3.is_true(s.guard)):
            return False
        isc = s.val[0].attrs["i"].decl().eq(self.ci)
        which = "constants" if isc else "variables"
        if which in self.done or (isc and self.done):
            raise Unsupported("loops over the substitution in another order")
        tag = "_subs_dict: loop over the %s: " % which
        ctx = self.ctx
        a, P = freshi("a"), self.src.prog
        hi = self.nc if isc else self.nv
        nc = a if isc else (self.nc if "constants" in self.done else iv(0))
        # the one dict the loop fills
        pre0, pc0, limit = eng.cells, eng.pc, eng.next
        before = self.pieces(iv(0), iv(0)) if isc else self.pieces(nc, iv(0))
        target = None
        for rnd in range(2):
            cells = dict(pre0)
            if target is not None:
                cells[target] = DictV(self.pieces(a, iv(0)) if isc else self.pieces(nc, a))
            hyp = [a >= 0, a < hi]
            eng.cells, eng.pc = cells, pc0 + hyp
            eng.binders.append(a)
            val = vsub(s.val, [(s.binders[0].var, a)])
            try:
                paths = eng.explore(lambda: (assign(lib.materialise(eng, val)), body()))
            finally:
                eng.cells, eng.pc = pre0, pc0
                eng.binders.pop()
            from pv import loops
            mods = set()
            for p in paths:
                if p.out != "raise":
                    mods |= loops._mods(cells, p.cells, limit)
            conts = {u[0] for u in mods if u[1] is None}
            if target is None:
                if len(conts) != 1:
                    raise Unsupported("containers filled by the loop: %s" % conts)
                target, = conts
                c0 = pre0[target]
                if not isinstance(c0, DictV) or c0.kind != "dict" or len(c0.pieces) != len(before):
                    raise Unsupported("substitution dict")
                for p, q in zip(c0.pieces, before):
                    if not (lib.vequal_syn(vsub(p.key, [(p.binders[0].var, q.binders[0].var)]), q.key) and z3.is_true(p.guard) and p.binders[0].hi.eq(q.binders[0].hi)):
                        raise Unsupported("substitution dict before the loop")
                ctx.fact(tag + "starts from the items before it", True)
            elif conts != {target}:
                raise Unsupported("containers filled by the loop: %s" % conts)
        nret = 0
        for t, p in enumerate(paths):
            nm = "%spath %d: " % (tag, t)
            facts = eng.facts + pc0 + hyp + p.pc + [f for x in p.pc for f in exists_facts(x)]
            ok = self.step_c(a) if isc else self.step_v(a, nc)
            if p.out == "raise":
                ctx.valid(nm + "raises only for an invalid item", facts, z3.Not(ok))
                ctx.fact(nm + "rejects with QiskitOptimizationError", exc_name(p.val) == "QiskitOptimizationError", str(p.val))
                continue
            if p.out not in ("normal", "continue"):
                raise Unsupported("loop left by %s" % p.out)
            nret += 1
            ctx.valid(nm + "accepts only a valid item", facts, ok)
            c0, c1 = cells[target], p.cells[target]
            if len(c1.pieces) != len(c0.pieces) + 1 or c1.pieces[-1].binders:
                raise Unsupported("update of the substitution dict")
            q = c1.pieces[-1]
            ctx.valid(nm + "stores the item under the variable's name", facts, z3.And(q.guard, q.key == V((self.ci if isc else self.vi)(a), P)))
            if not (isinstance(q.val, tuple) and len(q.val) == 2 and q.mode == "set"):
                raise Unsupported("stored %r" % (q.val,))
            w0 = litname(CONST) if isc else V(self.vj(a), P)
            ctx.valid(nm + "stores target and value", facts, z3.And(as_name(eng, q.val[0]) == w0, lib.undg(real(q.val[1])) == (self.cv if isc else self.vv)(a)))
            for k, (x, y) in enumerate(zip(c0.pieces, c1.pieces)):
                m = [(y.binders[0].var, x.binders[0].var)]
                ctx.valid("%skeeps the items before it (%d)" % (nm, k), facts + [x.binders[0].range()],
                          z3.And(lib.undg(subst(y.guard, m)), subst(y.key, m) == x.key, subst(y.val[0], m) == x.val[0], subst(real(y.val[1]), m) == real(x.val[1])))
        ctx.fact(tag + "some path accepts", nret > 0)
        # exit: raises at the first invalid item, otherwise all are stored
        self.done.append(which)
        bad = z3.Bool("invalid_" + which)
        if eng.branch(bad):
            eng.raise_("QiskitOptimizationError")
        cells = dict(pre0)
        cells[target] = DictV(self.pieces(hi, iv(0)) if isc else self.pieces(nc, hi))
        for (cid, f) in mods:
            if f is not None:
                fl = dict(cells[cid].fields)
                fl[f] = Poison("assigned in a loop")
                cells[cid] = ObjV(cells[cid].cls, fl)
        eng.cells = cells
        k = z3.Int("qk")
        eng.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < hi), self.step_c(k) if isc else self.step_v(k, nc))))
        return True


def subs_dict(ctx):
    for cs, vs in ((True, True), (True, False), (False, True), (False, False)):
        eng, src, sub, dst, me = engine()
        bd = Build(ctx, eng, src)
        eng.loop_hooks.append(bd.hook)
        tag = "_subs_dict(%s constants, %s variables)" % ("some" if cs else "no", "some" if vs else "no")
        args = [bd.consts() if cs else None, bd.vars() if vs else None]

        def go():
            bd.done = []
            return eng.call(eng.getattr(me, "_subs_dict"), list(args))
        n = 0
        for t, p in enumerate(eng.explore(go)):
            if p.out == "raise":
                ctx.valid("%s path %d: raises only for an invalid item" % (tag, t), eng.facts + p.pc, z3.Or(z3.Bool("invalid_constants"), z3.Bool("invalid_variables")))
                continue
            n += 1
            nm = "%s path %d: " % (tag, t)
            eng.cells = dict(p.cells)
            d = eng.cell(eng.getattr(me, "_subs"))
            want = bd.pieces(bd.nc if cs else iv(0), bd.nv if vs else iv(0))
            if not isinstance(d, DictV) or len(d.pieces) != len(want):
                raise Unsupported("substitution %r" % (d,))
            for k, (x, y) in enumerate(zip(want, d.pieces)):
                m = [(y.binders[0].var, x.binders[0].var)]
                ctx.valid("%sthe substitution holds exactly the items given (%d)" % (nm, k), eng.facts + p.pc + [x.binders[0].range()],
                          z3.And(x.binders[0].hi == y.binders[0].hi, lib.undg(subst(y.guard, m)), subst(y.key, m) == x.key, subst(y.val[0], m) == x.val[0], subst(real(y.val[1]), m) == real(x.val[1])))
            # what the other methods rely on
            b1, b2 = freshi("b"), freshi("b")
            h = eng.facts + p.pc + [b1 >= 0, b2 >= 0]
            if vs:
                h2 = h + [b1 < bd.nv, b2 < bd.nv]
                ctx.valid(nm + "factors are not zero", h2, bd.vv(b1) != 0)
                ctx.valid(nm + "no variable is substituted by a substituted one", h2, bd.vj(b1) != bd.vi(b2))
                ctx.valid(nm + "no variable is substituted twice", h2 + [b1 < b2], bd.vi(b1) != bd.vi(b2))
            if cs:
                ctx.valid(nm + "no variable is replaced by two constants", h + [b1 < b2, b2 < bd.nc], bd.ci(b1) != bd.ci(b2))
            if cs and vs:
                h3 = h + [b1 < bd.nc, b2 < bd.nv]
                ctx.valid(nm + "constants and variables are apart", h3, z3.And(bd.ci(b1) != bd.vi(b2), bd.ci(b1) != bd.vj(b2)))
            ctx.fact(nm + "the source program is left as it was", src.untouched(p.cells))
        ctx.fact(tag + ": some path returns", n > 0)
        ctx.side(eng, prefix=tag + ": ")
    return [eng]


STEPS = ("_variables", "_objective", "_linear_constraints", "_quadratic_constraints")


def compose(ctx):
    """substitute_variables, its steps replaced by their contracts (a program under construction, a flag each)."""
    eng, src, sub, dst, me = engine()
    cls = eng.resolve(MOD + ".SubstituteVariables")
    log = eng.new(ObjV("ghost", {"w": ()}))
    flags = {m: z3.Bool("flag" + m) for m in STEPS}
    CS, VS = Rec("arg", {"k": 1}), Rec("arg", {"k": 2})

    def step(m):
        def fn(e, a, k):
            o = e.cell(a[0]).fields
            args = dict(zip(["constants", "variables"], a[1:]))
            args.update(k)
            e.put(log, ObjV("ghost", {"w": e.cell(log).fields["w"] + ((m, o.get("_src"), o.get("_dst"), args.get("constants"), args.get("variables")),)}))
            return flags.get(m)
        return NativeV(m, fn)
    for m in ("_subs_dict",) + STEPS:
        if m not in cls.members:
            raise Unsupported("no method " + m)
        cls.members[m] = ("method", step(m))
    cells0 = dict(eng.cells)
    for label, call in (("SubstituteVariables.substitute_variables", lambda: eng.call(eng.getattr(eng.call(cls, []), "substitute_variables"), [src.ref, CS, VS])),
                        ("QuadraticProgram.substitute_variables", lambda: eng.call(eng.getattr(src.ref, "substitute_variables"), [CS, VS]))):
        eng.cells = dict(cells0)
        for nm, facts, p in each(ctx, eng, label, call):
            w = eng.cell(log).fields["w"]
            r = p.val
            if not (isinstance(r, Ref) and isinstance(eng.cell(r), ObjV) and eng.cell(r).cls == "AProg"):
                raise Unsupported("result %r" % (r,))
            names = [x[0] for x in w]
            ctx.fact(nm + "every step runs once, the substitution first, the variables before what refers to them",
                     sorted(names) == sorted(("_subs_dict",) + STEPS) and names[0] == "_subs_dict" and names[1] == "_variables", str(names))
            ctx.fact(nm + "the steps work on the source and the returned program", all(x[1] == src.ref and x[2] == r for x in w))
            ctx.fact(nm + "the given substitution is used", all(x[3] is CS and x[4] is VS for x in w if x[0] == "_subs_dict"))
            ctx.fact(nm + "the result is a new program with the source's name", r != src.ref and as_name(eng, fields(eng, r)["name"]).eq(as_name(eng, fields(eng, src.ref)["name"])))
            st = status(eng, r)
            ctx.valid(nm + "flagged infeasible exactly if a step says so", facts, (st == 1) == z3.Or(*[z3.Not(f) for f in flags.values()]))
            ctx.valid(nm + "otherwise valid", facts, z3.Or(st == 0, st == 1))
            ctx.fact(nm + "the source program is left as it was", src.untouched(p.cells))
    return [eng]


def status(eng, r):
    f = fields(eng, r)
    return lib.enum_term(f["_status"] if "_status" in f else f["status"])


def const_sum(eng, v):
    return lib.undg(real(lib.num(eng.call(eng.external("math.fsum"), [v]))))


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("LinearExpression / QuadraticExpression constructors and their coefficient matrices: contracts (property C02); the number of stored entries is zero only if all "
               "entries vanish and positive only if some key was given", "QuadraticProgram._add_variable, linear_constraint, quadratic_constraint, minimize, maximize: contracts (property C03)",
               "bounds of 1e20 and beyond mean no bound; points are smaller than 1e20 in magnitude", "termination of the renaming loop of a quadratic constraint that became linear",
               "the keys of the substitution are valid variables (names or indices in range)")
    ctx.contract("SubstituteVariables._subs_dict", subs_dict, par=True)
    ctx.contract("SubstituteVariables._variables", variables, par=True)
    ctx.contract("SubstituteVariables._linear_expression", linear_expression, par=True)
    ctx.contract("SubstituteVariables._quadratic_expression", quadratic_expression, par=True)
    ctx.contract("SubstituteVariables._objective", objective, par=True)
    ctx.contract("SubstituteVariables._linear_constraints", linear_constraints, par=True)
    ctx.contract("SubstituteVariables._quadratic_constraints", quadratic_constraints, par=True)
    ctx.contract("SubstituteVariables.substitute_variables", compose, par=True)
