"""C08: LinearEqualityToPenalty."""
from .common import *

CLS = PRE + "converters.linear_equality_to_penalty.LinearEqualityToPenalty"


def check_path(ctx, nm, eng, src, p, r, pen, auto):
    """Postconditions of one non-raising path of convert."""
    c, i = z3.Ints("qc qi")
    facts = eng.facts + p.pc
    ctx.valid(nm + "accepts only equalities", facts, z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < src.m), src.cs(c) == EQ)))
    F = p.cells[r.id].fields
    obj = F["objective"]
    bc = src.bi(src.m)
    res = src.lhs_l(bc.var) - src.crhs(bc.var)
    spec = src.obj_val() + z3.ToReal(src.sense) * real(pen) * mk_sum([bc], TRUE, res * res)
    ctx.eq(nm + "objective = original + sense * penalty * sum of squared residuals", facts, aprog.obj_value(obj), spec, closed=[pen])
    ctx.valid(nm + "sense preserved", facts, lib.enum_term(obj.attrs["sense"]) == src.sense)
    same_variables(ctx, nm, facts, p.cells, r, src)
    names_distinct(ctx, nm, eng, facts, p.cells, r)
    ctx.fact(nm + "no constraints", not p.cells[F["lcons"].id].segs and not p.cells[F["qcons"].id].segs)
    ctx.fact(nm + "input not modified", src.untouched(p.cells))
    if auto:
        integral = z3.And(z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < src.m), z3.IsInt(src.crhs(c)))),
                          z3.ForAll([c, i], z3.Implies(z3.And(c >= 0, c < src.m, i >= 0, i < src.n), z3.IsInt(src.cL(c, i)))))
        if norm.check(facts + [integral], 3000)[0] != z3.unsat:
            # sum of the absolute objective coefficients bounds the objective's range: the penalty must exceed it
            x, y = z3.Function("x", Name, R), z3.Function("y", Name, R)
            nv = z3.Const("qn", Name)
            bits = [z3.ForAll([nv], z3.Or(f(nv) == 0, f(nv) == 1), patterns=[f(nv)]) for f in (x, y)]
            ox = src.obj_val(lambda k: x(V(k, src.prog)))
            oy = src.obj_val(lambda k: y(V(k, src.prog)))
            ctx.ge0(nm + "automatic penalty >= 1 + objective range over binary points", facts + bits + [integral],
                    real(pen) - 1 - z3.ToReal(src.sense) * (ox - oy))


def convert(ctx):
    out = []
    for auto in (True, False):
        eng = setup()
        src = Src(eng, with_q=False)
        lam = None if auto else z3.Real("penalty_arg")
        tag = "auto" if auto else "given"

        def go():
            conv = eng.call(eng.resolve(CLS), [], {} if auto else {"penalty": lam})
            r = eng.call(eng.getattr(conv, "convert"), [src.ref])
            return conv, r, eng.getattr(conv, "penalty")
        paths = eng.explore(go)
        ctx.vac["paths"] += len(paths)
        c = z3.Int("qc")
        for k, p in enumerate(paths):
            facts = eng.facts + p.pc
            nm = "convert[%s] path %d: " % (tag, k)
            if p.out == "raise":
                w = z3.Exists([c], z3.And(c >= 0, c < src.m, src.cs(c) != EQ))
                ctx.valid(nm + "raises only for inequality constraints", facts, w)
                ctx.fact(nm + "input not modified", src.untouched(p.cells))
                continue
            conv, r, pen = p.val
            check_path(ctx, nm, eng, src, p, r, pen, auto)
            if not auto:
                ctx.valid(nm + "the given penalty is used", facts, real(pen) == lam)
        ctx.fact("convert[%s] has a non-raising path" % tag, any(p.out == "normal" for p in paths))
        ctx.side(eng, prefix="convert[%s]: " % tag)
        out.append(eng)
    return out


def reuse(ctx):
    """The automatic penalty of a second conversion is that of the second program."""
    eng = setup()
    a, b = Src(eng, tag="A", with_q=False), Src(eng, tag="B", with_q=False)
    eng.facts += [a.m == 0, b.m == 0]     # penalty bookkeeping does not depend on the rows: keeps the case analysis small

    def go():
        conv = eng.call(eng.resolve(CLS), [], {})
        eng.call(eng.getattr(conv, "convert"), [a.ref])
        r = eng.call(eng.getattr(conv, "convert"), [b.ref])
        return conv, r, eng.getattr(conv, "penalty")
    for k, p in enumerate(eng.explore(go)):
        if p.out == "normal":
            check_path(ctx, "second convert path %d: " % k, eng, b, p, p.val[1], p.val[2], True)
        else:
            ctx.fact("second convert path %d: does not raise" % k, False)
    return eng


def residual_lemma(ctx):
    """Integral rows, rhs and variables: a violated row contributes at least 1, every row at least 0."""
    eng = setup()
    src = Src(eng, with_q=False)
    nv = z3.Const("qn", Name)
    i, c = z3.Ints("qi qc")
    facts = eng.facts + [z3.ForAll([nv], z3.Or(pt(nv) == 0, pt(nv) == 1), patterns=[pt(nv)]),
                         z3.ForAll([c, i], z3.IsInt(src.cL(c, i)), patterns=[src.cL(c, i)]), z3.ForAll([c], z3.IsInt(src.crhs(c)), patterns=[src.crhs(c)])]
    w = z3.Int("w")
    import time
    t0 = time.time()
    ok, why = norm.Prover(facts, 4000).is_int(src.lhs_l(w) - src.crhs(w))
    ctx.record("lemma: residuals are integers", ok, why, "sum normal forms + z3", t0)
    r = z3.Real("r")
    k = z3.Int("k")
    ctx.valid("lemma: a non-zero integer has square >= 1", [r == z3.ToReal(k), r != 0], r * r >= 1)
    ctx.valid("lemma: squares are non-negative", [], r * r >= 0)
    return eng


def interpret(ctx):
    eng = setup()
    src = Src(eng, with_q=False)
    ln = z3.Int("len_x")
    eng.facts.append(ln >= 0)
    f = z3.Function("xv", I, R)
    x = vec(f, ln)

    def go():
        conv = eng.call(eng.resolve(CLS), [], {"penalty": z3.Real("penalty_arg")})
        eng.call(eng.getattr(conv, "convert"), [src.ref])
        return eng.call(eng.getattr(conv, "interpret"), [x])
    for k, p in enumerate(eng.explore(go)):
        facts = eng.facts + p.pc
        nm = "interpret path %d: " % k
        c = z3.Int("qc")
        if p.out == "raise":
            ctx.valid(nm + "raises only for wrong lengths (or inequalities)", facts,
                      z3.Or(ln != src.n, z3.Exists([c], z3.And(c >= 0, c < src.m, src.cs(c) != EQ))))
            continue
        j = freshi()
        n2, v = vec_at(eng, p.val, j, p.cells)
        ctx.valid(nm + "accepted only for the right length, same length returned", facts, z3.And(ln == src.n, n2 == src.n))
        ctx.valid(nm + "identity", facts + [j >= 0, j < src.n], v == f(j))
    return eng


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("inference rule: a sum of non-negative terms is at least each of its terms")
    ctx.contract("LinearEqualityToPenalty.convert", convert)
    ctx.contract("LinearEqualityToPenalty.convert (reused instance)", reuse)
    ctx.contract("residual lemma", residual_lemma)
    ctx.contract("LinearEqualityToPenalty.interpret", interpret)
