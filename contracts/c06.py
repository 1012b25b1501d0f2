"""C06: InequalityToEquality."""
import time
from .common import *
from pv.interp import INLINE

CLS = PRE + "converters.inequality_to_equality.InequalityToEquality"


def plain_value(d_lin, d_quad=None):
    """Value of the pieces over original variables, and the slack pieces."""
    slack, rest = [], []
    for q in d_lin.pieces:
        if isz(q.key) and q.key.decl().name() != "V":
            slack.append(q)
        else:
            rest.append(q)
    t = aprog.value_at(DictV(rest), 1)
    if d_quad is not None:
        t = t + aprog.value_at(d_quad, 2)
    return t, slack


def find_var(eng, cells, r, name):
    """Records of dst variables with this name: list of (condition, record)."""
    out = []
    for s in cells[cells[r.id].fields["vars"].id].segs[1:]:
        nb, g, v = refresh(s.binders, s.guard, s.val)
        n2 = v.attrs["name"]
        # names are compared structurally: solve the binders through the arguments of the Skolem application
        if n2.decl().eq(name.decl()):
            eqs = [z3.simplify(x == y) for x, y in zip(n2.children(), name.children())]
            eqs = [e for e in eqs if not z3.is_true(e)]
            if any(z3.is_false(e) for e in eqs):
                continue
            m, conds, rem = lib.solve(nb, eqs)
            if rem:
                continue
            out.append((z3.simplify(band(subst(g, m), *conds)), vsub(v, m)))
    return out


def fresh_conv(eng, src=None, dst=None, mode="auto"):
    conv = eng.call(eng.resolve(CLS), [], {"mode": mode})
    if src is not None:
        eng.setattr(conv, "_src", src)
    if dst is not None:
        eng.setattr(conv, "_dst", dst)
    return conv


def run_helper(ctx, eng, go, nm):
    paths = eng.explore(go)
    ctx.vac["paths"] += len(paths)
    for p in paths:
        if p.out == "raise":
            raise Unsupported("%s raises %s" % (nm, p.val))
    return paths


def box(src, *idx):
    return [z3.And(src.lb(i) <= pt(V(i)), pt(V(i)) <= src.ub(i)) for i in idx]


def slack_name(ctx):
    """_get_slack_name: the result is not the name of a variable of the program under construction."""
    eng = setup()

    def go():
        conv = fresh_conv(eng)
        dst = eng.call(eng.resolve(aprog.QP), [])
        eng.put(aprog.fields(eng, dst)["vars"], ListV([], base=("unknown",)))
        eng.setattr(conv, "_dst", dst)
        lst = aprog.fields(eng, dst)["vars"]
        r = lib.as_name(eng, eng.call(eng.getattr(conv, "_get_slack_name"), [z3.Const("cname", Name), "int_slack"]))
        return r, any(x[0] == lst.id and x[1].eq(r) and x[2] is eng.cell(lst) for x in eng.notin)
    ok = True
    for k, p in enumerate(run_helper(ctx, eng, go, "_get_slack_name")):
        ok &= ctx.fact("_get_slack_name path %d: result is not a variable's name" % k, p.val[1], str(p.val[0]))
    CONTRACTS["slack"] = ok
    return eng


def linear_bounds(ctx):
    eng = setup()
    src = Src(eng, with_q=False)
    c = z3.Int("c0")

    def go():
        conv = fresh_conv(eng, src.ref)
        return eng.call(eng.getattr(conv, "_calc_linear_bounds"), [eng.new(lin_dict(src, lambda i: src.cL(c, i), lambda i: src.cst(c, i)))])
    ok = True
    for k, p in enumerate(run_helper(ctx, eng, go, "_calc_linear_bounds")):
        lo, hi = p.val
        pr = norm.Prover(eng.facts + p.pc, 8000)
        for nm, e in (("lower bound", src.lhs_l(c) - real(lo)), ("upper bound", real(hi) - src.lhs_l(c))):
            t0 = time.time()
            a, why = pr.ge0_sums(lib.undg(e), lambda vs: [f for v in vs for f in box(src, v)])
            ctx.record("_calc_linear_bounds path %d: %s holds on the variables' box" % (k, nm), a, why, "pointwise z3 (nonlinear)", t0)
            ok &= a
    CONTRACTS["linear"] = ok
    return eng


def quadratic_bounds(ctx):
    eng = setup()
    src = Src(eng, with_l=False)
    install(eng, src)
    c = z3.Int("c0")

    def go():
        conv = fresh_conv(eng, src.ref)
        return eng.call(eng.getattr(conv, "_calc_quadratic_bounds"), [eng.new(lin_dict(src, lambda i: src.dL(c, i), lambda i: src.dst(c, i))),
                                                                            eng.new(quad_dict(src, lambda i, j: src.dQ(c, i, j), lambda i, j: src.dstQ(c, i, j)))])
    ok = True
    for k, p in enumerate(run_helper(ctx, eng, go, "_calc_quadratic_bounds")):
        lo, hi = p.val
        facts = eng.facts + p.pc + [f for bs, f in eng.gfacts]
        for nm, e in (("lower bound", src.lhs_q(c) - real(lo)), ("upper bound", real(hi) - src.lhs_q(c))):
            t0 = time.time()
            a, why = norm.Prover(facts, 8000).ge0_sums(lib.undg(e), lambda vs: [f for v in vs for f in box(src, v)])
            ctx.record("_calc_quadratic_bounds path %d: %s holds on the variables' box" % (k, nm), a, why, "pointwise z3 (nonlinear)", t0)
            ok &= a
    CONTRACTS["quad"] = ok
    return eng


CONTRACTS = {}


def lin_dict(src, f, st):
    b = src.bi(src.n)
    return DictV([Piece([b], st(b.var), V(b.var), f(b.var))])


def quad_dict(src, f, st):
    b1, b2 = src.bi(src.n), src.bi(src.n)
    return DictV([Piece([b1, b2], z3.And(b1.var <= b2.var, st(b1.var, b2.var)), (V(b1.var), V(b2.var)), f(b1.var, b2.var))])


def over_src(src, d, deg):
    """every key names variables of the source program within range"""
    for q in d.pieces:
        ks = q.key if deg == 2 else (q.key,)
        for k in ks:
            if not (isz(k) and z3.is_app(k) and k.decl().name() == "V" and k.arg(0).eq(z3.IntVal(src.prog) if not isz(src.prog) else src.prog)):
                return False
            if not any(b.var.eq(k.arg(1)) and z3.simplify(b.lo).eq(z3.IntVal(0)) and z3.simplify(b.hi).eq(src.n) for b in q.binders):
                return False
    return True


def install(eng, src):
    """callees are replaced by their verified contracts"""
    eng.gfacts, eng.bfun = [], {}
    if CONTRACTS.get("slack"):
        def nslack(e, a, k):
            i = e.binders[-1] if e.binders else z3.IntVal(0)
            if len(e.binders) > 1:
                return INLINE
            return Name.slk(z3.IntVal(e.fresh_tok()), i)
        eng.overrides[CLS + "._get_slack_name"] = NativeV("_get_slack_name", nslack)

    def bounds(deg):
        def fn(e, a, k):
            if k or len(a) != deg + 1:
                return INLINE
            ds = [e.cell(x) for x in a[1:]]
            if not all(isinstance(d, DictV) and d.base is None for d in ds) or not all(over_src(src, d, t + 1) for t, d in enumerate(ds)):
                return INLINE
            if aprog.fields(e, e.getattr(a[0], "_src")).get("src") is not src:
                return INLINE
            val = lib.undg(aprog.value_at(ds[0], 1) + (aprog.value_at(ds[1], 2) if deg == 2 else 0))
            # the callee is a function of its arguments and of the source program (it writes nothing): one result per argument
            f = e.bfun.setdefault((deg, len(e.binders)), (z3.Function("lhs_lb", *([I] * len(e.binders) + [R])), z3.Function("lhs_ub", *([I] * len(e.binders) + [R])), [])) \
                if e.binders else (z3.Real("lhs_lb0"), z3.Real("lhs_ub0"), [])
            key = z3.simplify(subst(val, [(x, z3.Int("arg!%d" % t)) for t, x in enumerate(e.binders)])).sexpr()
            if f[2] and f[2][0] != key:
                return INLINE
            f[2].append(key)
            lo, hi = (f[0](*e.binders), f[1](*e.binders)) if e.binders else f[:2]
            if len(f[2]) == 1:
                e.gfacts.append((list(e.binders), z3.And(lo <= val, val <= hi)))
            return (lo, hi)
        return fn
    if CONTRACTS.get("linear"):
        eng.overrides[CLS + "._calc_linear_bounds"] = NativeV("_calc_linear_bounds", bounds(1))
    if CONTRACTS.get("quad"):
        eng.overrides[CLS + "._calc_quadratic_bounds"] = NativeV("_calc_quadratic_bounds", bounds(2))


def quantified(f):
    if z3.is_quantifier(f):
        return True
    return z3.is_app(f) and any(quantified(c) for c in f.children())


def check_cons(ctx, nm, eng, p, r, src, kind, base):
    F = p.cells[r.id].fields
    segs = p.cells[F["lcons" if kind == "l" else "qcons"].id].segs
    size = src.m if kind == "l" else src.q
    c = z3.Int("c0!%s" % kind)
    rng = z3.And(c >= 0, c < size)
    guards = []
    i = z3.Int("qi")
    sense, rhs = (src.cs(c), src.crhs(c)) if kind == "l" else (src.ds(c), src.drhs(c))
    lhs_src = src.lhs_l(c) if kind == "l" else src.lhs_q(c)
    ints = [z3.ForAll([i], z3.Implies(src.vt(i) != 0, z3.IsInt(pt(V(i)))), patterns=[pt(V(i))])]
    gf = [lib.undg(subst(f, [(bs[-1], c)])) if bs else f for bs, f in eng.gfacts]
    for k, s in enumerate(segs):
        if len(s.binders) != 1:
            ctx.fact(nm + "one constraint per original constraint", False, str(s)[:300])
            return
        b = s.binders[0]
        m = [(b.var, c)]
        g = subst(s.guard, m)
        con = vsub(s.val, m)
        guards.append(band(subst(b.range(), m), g))
        ex = eng.exposed(g, True)
        facts = base + [rng, g] + ([ex] if ex is not None else [])
        ground = norm.instantiate(base, [c]) + [rng, g] + gf + [sense >= 0, sense <= 2]
        if norm.check(ground, 3000)[0] == z3.unsat:
            continue
        t = "%s%s constraint case %d: " % (nm, "linear" if kind == "l" else "quadratic", k)
        at = con.attrs
        ctx.valid(t + "equality with the original name", ground,
                  z3.And(lib.enum_term(at["sense"]) == EQ, at["name"] == (Name.LN(c) if kind == "l" else Name.QN(c))))
        val, slack = plain_value(at["linear"].attrs["d"], at["quadratic"].attrs["d"] if kind == "q" else None)
        if not ctx.eq(t + "original left-hand side kept", facts, val, lhs_src):
            continue
        L0 = z3.Real("lhs")
        ground += [L0 == lhs_src, lib.undg(val) == L0]
        r2 = at["rhs"]
        lem = []
        kint = z3.Int("lhs_int")
        if not slack:
            ctx.valid(t + "no slack: solutions are solutions of the original", ground, z3.Implies(L0 == r2, aprog.holds(sense, L0, rhs)))
            goal = z3.Implies(aprog.holds(sense, L0, rhs), L0 == r2)
            ok, _ = norm.Prover(ground, 3000).valid(goal)
            if not ok:
                isint, why = is_int(facts + ints, lhs_src, [c])
                lem = [L0 == z3.ToReal(kint)] if isint else []
            ctx.valid(t + "no slack: solutions of the original satisfy the equality", ground + lem, goal)
            continue
        if not ctx.fact(t + "one slack variable", len(slack) == 1 and not slack[0].binders, str(slack)[:300]):
            continue
        sl = slack[0]
        cand = [(cd, v) for cd, v in find_var(eng, p.cells, r, sl.key) if norm.check(ground + [cd], 3000)[0] != z3.unsat]
        if not ctx.fact(t + "slack variable declared once", len(cand) == 1, str(cand)[:400]):
            continue
        cd, var = cand[0]
        ctx.valid(t + "slack variable exists in this case", ground, cd)
        coef, lo, ub = real(sl.val), var.attrs["lowerbound"], var.attrs["upperbound"]
        sv = z3.Real("slackval")
        ctx.valid(t + "slack coefficient is +-1", ground, z3.Or(coef == 1, coef == -1))
        ctx.valid(t + "solutions are solutions of the original", ground + [lo <= sv, sv <= ub, L0 + coef * sv == r2], aprog.holds(sense, L0, rhs))
        is_integer = norm.check(ground + [lib.enum_term(var.attrs["vartype"]) != 2], 2000)[0] == z3.unsat
        w = coef * (r2 - L0)
        if is_integer:
            t0 = time.time()
            a, why = is_int(facts + ints, lhs_src, [c])
            ctx.record(t + "integer slack only over integer rows", a, why, "sum normal forms + z3", t0)
            if a:
                lem.append(L0 == z3.ToReal(kint))
            ctx.valid(t + "needed slack value is an integer", ground + lem, z3.IsInt(w))
        ctx.valid(t + "needed slack value is within the slack's bounds", ground + lem, z3.Implies(aprog.holds(sense, L0, rhs), z3.And(lo <= w, w <= ub)))
    qf = norm.instantiate(base, [c]) + gf + [sense >= 0, sense <= 2]
    ctx.valid(nm + "%s: every constraint is represented" % kind, qf + [rng], bor(*guards) if guards else z3.Not(rng))
    over = [(x, y) for x in range(len(guards)) for y in range(x) if norm.check(qf + [rng, guards[x], guards[y]], 3000)[0] != z3.unsat]
    ctx.fact(nm + "%s: every constraint is represented once" % kind, not over, "overlapping cases %s" % over[:5])


def is_int(facts, e, idx):
    try:
        return norm.Prover(facts, 4000).is_int(e, idx)
    except norm.Giveup as ex:
        return False, str(ex)


def convert(mode, kind, reused=False):
    def fn(ctx):
        eng = setup()
        src = Src(eng, with_q=kind == "q", with_l=kind == "l")
        install(eng, src)
        # a second conversion by the same instance is that of a fresh one
        first = Src(eng, tag="A", with_q=False, with_l=False) if reused else None
        if first is not None:     # the first program: integer variables, minimised (keeps the case analysis small)
            qa = z3.Int("qa")
            eng.facts += [first.sense == 1, z3.ForAll([qa], first.vt(qa) == 2, patterns=[first.vt(qa)])]
        if mode == "integer":
            i = z3.Int("qi")
            eng.facts.append(z3.ForAll([i], src.vt(i) != 0, patterns=[src.vt(i)]))

        def go():
            conv = eng.call(eng.resolve(CLS), [], {"mode": mode})
            if first is not None:
                eng.call(eng.getattr(conv, "convert"), [first.ref])
            r = eng.call(eng.getattr(conv, "convert"), [src.ref])
            return conv, r
        paths = eng.explore(go)
        ctx.vac["paths"] += len(paths)
        c, i, j = z3.Ints("qc qi qj")
        bad = z3.Or(
            z3.Exists([c, i], z3.And(c >= 0, c < src.m, i >= 0, i < src.n, src.cs(c) != EQ, z3.Not(z3.IsInt(src.cL(c, i))))),
            z3.Exists([c, i], z3.And(c >= 0, c < src.q, i >= 0, i < src.n, src.ds(c) != EQ, z3.Not(z3.IsInt(src.dL(c, i))))),
            z3.Exists([c, i, j], z3.And(c >= 0, c < src.q, i >= 0, i < src.n, j >= 0, j < src.n, src.ds(c) != EQ, z3.Not(z3.IsInt(src.dQ(c, i, j))))))
        for k, p in enumerate(paths):
            nm = "convert[%s,%s] path %d: " % (mode, kind, k)
            facts = eng.facts + p.pc
            if p.out == "raise":
                if mode == "integer":
                    ctx.valid(nm + "raises only for non-integral coefficients of an inequality", facts, bad)
                elif mode == "other":
                    ctx.valid(nm + "raises only if there is an inequality", facts, z3.Or(
                        z3.Exists([c], z3.And(c >= 0, c < src.m, src.cs(c) != EQ)), z3.Exists([c], z3.And(c >= 0, c < src.q, src.ds(c) != EQ))))
                else:
                    ctx.fact(nm + "does not raise", False, str(p.val))
                ctx.fact(nm + "input not modified", src.untouched(p.cells))
                continue
            conv, r = p.val
            F = p.cells[r.id].fields
            if mode == "other":
                ctx.valid(nm + "unknown mode accepted only without inequalities", facts, z3.ForAll([c], z3.And(
                    z3.Implies(z3.And(c >= 0, c < src.m), src.cs(c) == EQ), z3.Implies(z3.And(c >= 0, c < src.q), src.ds(c) == EQ))))
            ctx.eq(nm + "objective unchanged", facts, aprog.obj_value(F["objective"]), src.obj_val())
            ctx.valid(nm + "sense unchanged", facts, lib.enum_term(F["objective"].attrs["sense"]) == src.sense)
            same_variables(ctx, nm, facts, p.cells, r, src, extra=True)
            names_distinct(ctx, nm, eng, facts, p.cells, r)
            check_cons(ctx, nm, eng, p, r, src, kind, facts)
            other = F["qcons" if kind == "l" else "lcons"]
            ctx.valid(nm + "no other constraints", facts, z3.Not(bor(*[mk_exists(s.binders, s.guard) for s in p.cells[other.id].segs])))
            ctx.fact(nm + "input not modified", src.untouched(p.cells))
        ctx.fact("convert[%s,%s] has a non-raising path" % (mode, kind), any(p.out == "normal" for p in paths))
        ctx.side(eng, prefix="convert[%s,%s]: " % (mode, kind))
        return eng
    return fn


def interpret(ctx):
    eng = setup()
    src = Src(eng, with_q=False)
    install(eng, src)
    ln = z3.Int("len_x")
    x = vec(lambda i: z3.Function("xv", I, R)(i), ln)

    def go():
        conv = eng.call(eng.resolve(CLS), [], {"mode": "continuous"})
        r = eng.call(eng.getattr(conv, "convert"), [src.ref])
        # the point belongs to the converted program: position k holds the value of its k-th variable
        eng.assume(ln >= src.n)
        return r, eng.call(eng.getattr(conv, "interpret"), [Rec("pt", {"prog": r, "len": ln})])
    for k, p in enumerate(eng.explore(go)):
        nm = "interpret path %d: " % k
        facts = eng.facts + p.pc
        if p.out == "raise":
            ctx.fact(nm + "does not raise", False, str(p.val))
            continue
        j = freshi()
        n2, v = vec_at(eng, p.val[1], j, p.cells)
        ctx.valid(nm + "one value per original variable", facts, n2 == src.n)
        ctx.eq(nm + "value of the original variable", facts + [j >= 0, j < src.n], v, pt(V(j)))
    return eng


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("integer variables have integral bounds; 'integer' mode is used without continuous variables",
               "user names do not contain '@'")
    CONTRACTS.clear()
    ctx.contract("_get_slack_name", slack_name)
    ctx.contract("_calc_linear_bounds", linear_bounds)
    ctx.contract("_calc_quadratic_bounds", quadratic_bounds)
    for mode in ("auto", "integer", "continuous", "other"):
        for kind in ("l", "q"):
            ctx.contract("InequalityToEquality.convert[%s,%s]" % (mode, kind), convert(mode, kind), par=True)
    ctx.contract("InequalityToEquality.interpret", interpret)
