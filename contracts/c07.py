"""C07: IntegerToBinary."""
import time
from .common import *
from pv.interp import INLINE

CLS = PRE + "converters.integer_to_binary.IntegerToBinary"
KF = z3.Function("nbits", R, R, I)
CF = z3.Function("bitcoef", R, R, I, R)
OK = {}
TAG = {}


def bits_of(eng, name, lo, hi):
    """List described by the contract of _convert_var."""
    k = freshi()
    b = Binder(k, iv(0), KF(lo, hi))
    return eng.new(ListV([Seg([b], TRUE, (Name.ext(name, TAG["t"], k), CF(lo, hi, k)))]))


def install(eng, src):
    def conv(e, a, k):
        if k or len(a) != 4:
            return INLINE
        nm = lib.as_name(e, a[1])
        return bits_of(e, nm, real(a[2]), real(a[3]))
    if OK.get("var"):
        eng.overrides[CLS + "._convert_var"] = NativeV("_convert_var", conv)


def decoded(src):
    def f(i):
        b = Binder(freshi(), iv(0), KF(src.lb(i), src.ub(i)))
        s = mk_sum([b], TRUE, CF(src.lb(i), src.ub(i), b.var) * pt(Name.ext(V(i), TAG["t"], b.var)))
        return z3.If(src.vt(i) == 2, src.lb(i) + s, pt(V(i)))
    return f


def convert_var(ctx):
    """_convert_var(name, lb, ub): names name@0.., coefficients 1, 2, 4, .., 2^(P-1), L with L + 2^P - 1 = ub - lb and 0 <= L <= 2^P."""
    eng = setup()
    lo, hi = z3.ToReal(z3.Int("lb0")), z3.ToReal(z3.Int("ub0"))
    name = z3.Const("vname", Name)
    eng.facts += [lo <= hi] + lib.pow2_axioms()
    r = hi - lo

    def go():
        conv = eng.call(eng.resolve(CLS), [])
        return eng.call(eng.getattr(conv, "_convert_var"), [name, lo, hi])
    tags, ok = set(), True
    ri = z3.Int("range_i")
    for k, p in enumerate(eng.explore(go)):
        nm = "_convert_var path %d: " % k
        if p.out == "raise":
            raise Unsupported("_convert_var raises %s" % p.val)
        facts = [f for f in norm.instantiate(eng.facts + p.pc, [])] + [r == z3.ToReal(ri)]
        segs = [s for s in p.cells[p.val.id].segs if not z3.is_false(z3.simplify(s.guard))]
        pos = z3.IntVal(0)
        shape = len(segs) >= 1 and not segs[-1].binders and all(len(s.binders) <= 1 and z3.is_true(s.guard) for s in segs)
        if not ctx.fact(nm + "list of powers followed by one remainder", shape, str(segs)[:300]):
            ok = False
            continue
        for s in segs:
            var, coef = s.val
            var = lib.as_name(eng, var)
            here = pos if not s.binders else z3.simplify(pos + s.binders[0].var - s.binders[0].lo)
            hyp = facts + [b.range() for b in s.binders] + [pos >= 0]
            ok &= ctx.fact(nm + "name is derived from the variable's name", var.decl().name() == "ext" and var.arg(0).eq(name), str(var))
            tags.add(var.arg(1).sexpr())
            TAG["t"] = var.arg(1)
            ok &= ctx.valid(nm + "suffix is the position", hyp, var.arg(2) == here)
            if s is not segs[-1]:
                ok &= ctx.valid(nm + "coefficient is the power of two of its position", hyp, real(coef) == z3.ToReal(lib.POW2(here)))
                pos = z3.simplify(pos + (lib.seg_count(s) if s.binders else 1))
        P = pos
        L = real(segs[-1].val[1])
        base = facts + [z3.Implies(P >= 0, lib.POW2(P) >= 1), lib.POW2(z3.IntVal(0)) == 1]
        ok &= ctx.valid(nm + "number of powers is non-negative", base, P >= 0)
        ok &= ctx.valid(nm + "sum of the coefficients is the range", base, L + z3.ToReal(lib.POW2(P)) - 1 == r)
        ok &= ctx.valid(nm + "remainder is non-negative and leaves no gap", base, z3.And(L >= 0, L <= z3.ToReal(lib.POW2(P))))
    ok &= ctx.fact("_convert_var: one naming scheme", len(tags) == 1, str(tags))
    # lemmas used to read the three facts as 'the encoded values are exactly the integers of the range' (induction steps)
    k, v, pk, s0 = z3.Int("k"), z3.Int("v"), z3.Int("pk"), z3.Int("s")
    ax = [pk == lib.POW2(k), lib.POW2(k + 1) == 2 * pk, pk >= 1, k >= 0]
    ctx.valid("lemma geometric sum, step: s = 2^k - 1 implies s + 2^k = 2^(k+1) - 1", ax + [s0 == pk - 1], s0 + pk == lib.POW2(k + 1) - 1)
    ctx.valid("lemma binary digits, step: v < 2^(k+1) is v' or 2^k + v' with v' < 2^k", ax + [v >= 0, v < lib.POW2(k + 1)],
              z3.Or(v < pk, z3.And(v - pk >= 0, v - pk < pk)))
    Lr, rr = z3.Ints("L r")
    ctx.valid("lemma coverage: every integer of the range is d or L + d with 0 <= d < 2^P", [pk >= 1, Lr >= 0, Lr <= pk, Lr + pk - 1 == rr, v >= 0, v <= rr],
              z3.Or(v < pk, z3.And(v - Lr >= 0, v - Lr < pk)))
    OK["var"] = bool(ok)
    return eng


def check_vars(ctx, nm, eng, facts, p, r, src):
    F = p.cells[r.id].fields
    segs = p.cells[F["vars"].id].segs
    i, kk = z3.Int("i0!v"), z3.Int("k0!v")
    kept, bits = [], []
    for s in segs:
        b = s.binders[0]
        at = s.val.attrs
        hyp = facts + [x.range() for x in s.binders] + [s.guard]
        vt = lib.enum_term(at["vartype"])
        ctx.valid(nm + "no integer variable is left", hyp, vt != 2)
        name = at["name"]
        if name.decl().name() == "ext":
            ok = len(s.binders) == 2 and name.arg(0).eq(V(b.var)) and name.arg(1).eq(TAG["t"]) and name.arg(2).eq(s.binders[1].var)
            if ctx.fact(nm + "bit variables are named after the encoded variable", ok, str(s)[:300]):
                ctx.valid(nm + "bits are binary variables of an integer variable", hyp,
                          z3.And(vt == 1, src.vt(b.var) == 2, s.binders[1].lo == 0, s.binders[1].hi == KF(src.lb(b.var), src.ub(b.var))))
                m = [(b.var, i), (s.binders[1].var, kk)]
                bits.append(subst(band(*[x.range() for x in s.binders] + [s.guard]), m))
        else:
            ctx.valid(nm + "other variables keep name, type and bounds", hyp,
                      z3.And(name == V(b.var), vt == src.vt(b.var), real(at["lowerbound"]) == src.lb(b.var), real(at["upperbound"]) == src.ub(b.var)))
            if ctx.fact(nm + "one variable per original variable", len(s.binders) == 1):
                kept.append(subst(band(b.range(), s.guard), [(b.var, i)]))
    inr = z3.And(i >= 0, i < src.n)
    ctx.valid(nm + "every other variable is kept", facts + [inr, src.vt(i) != 2, src.vt(i) >= 0, src.vt(i) <= 2], bor(*kept) if kept else FALSE)
    ctx.valid(nm + "every bit exists", facts + [inr, src.vt(i) == 2, kk >= 0, kk < KF(src.lb(i), src.ub(i))], bor(*bits) if bits else FALSE)
    names_distinct(ctx, nm, eng, facts, p.cells, r)


FALSE = z3.BoolVal(False)


def convert(what, reused=False):
    def fn(ctx):
        eng = setup()
        src = Src(eng, with_q=what == "quadratic", with_l=what == "linear")
        install(eng, src)
        # a second conversion by the same instance is that of a fresh one
        first = Src(eng, tag="A", with_q=False, with_l=False) if reused else None
        if first is not None:     # the first program: integer variables, minimised (keeps the case analysis small)
            qa = z3.Int("qa")
            eng.facts += [first.sense == 1, z3.ForAll([qa], first.vt(qa) == 2, patterns=[first.vt(qa)])]

        def go():
            conv = eng.call(eng.resolve(CLS), [])
            if first is not None:
                eng.call(eng.getattr(conv, "convert"), [first.ref])
            return conv, eng.call(eng.getattr(conv, "convert"), [src.ref])
        paths = eng.explore(go)
        ctx.vac["paths"] += len(paths)
        dec = decoded(src)
        for k, p in enumerate(paths):
            nm = "convert[%s] path %d: " % (what, k)
            facts = eng.facts + p.pc
            if p.out == "raise":
                ctx.fact(nm + "does not raise", False, str(p.val))
                continue
            conv, r = p.val
            F = p.cells[r.id].fields
            if what == "objective":
                ctx.eq(nm + "objective at the decoded point", facts, aprog.obj_value(F["objective"]), src.obj_val(dec))
                ctx.valid(nm + "sense unchanged", facts, lib.enum_term(F["objective"].attrs["sense"]) == src.sense)
                check_vars(ctx, nm, eng, facts, p, r, src)
            for kind, key, size in (("l", "lcons", src.m), ("q", "qcons", src.q)):
                segs = p.cells[F[key].id].segs
                if what == ("linear" if kind == "l" else "quadratic"):
                    check_cons(ctx, nm + "%s constraints: " % what, eng, facts, segs, size, src, kind, dec)
                else:
                    ctx.valid(nm + "no other constraints", facts, z3.Not(bor(*[mk_exists(s.binders, s.guard) for s in segs])) if
                              not all(len(s.binders) == 1 for s in segs) else z3.And(TRUE, *[z3.Not(z3.And(s.binders[0].range(), s.guard)) for s in segs]))
            ctx.fact(nm + "input not modified", src.untouched(p.cells))
        ctx.side(eng, prefix="convert[%s]: " % what)
        return eng
    return fn


def check_cons(ctx, nm, eng, facts, segs, size, src, kind, dec):
    c = z3.Int("c0!%s" % kind)
    rng = z3.And(c >= 0, c < size)
    sense, rhs = (src.cs(c), src.crhs(c)) if kind == "l" else (src.ds(c), src.drhs(c))
    lhs = (src.lhs_l if kind == "l" else src.lhs_q)(c, dec)
    guards = []
    for k, s in enumerate(segs):
        if not ctx.fact(nm + "one per original constraint", len(s.binders) == 1, str(s)[:200]):
            return
        m = [(s.binders[0].var, c)]
        g = band(subst(s.binders[0].range(), m), subst(s.guard, m))
        guards.append(g)
        at = vsub(s.val, m).attrs
        hyp = facts + [rng, g]
        ctx.valid(nm + "same name and sense", hyp, z3.And(at["name"] == (Name.LN(c) if kind == "l" else Name.QN(c)), lib.enum_term(at["sense"]) == sense))
        lin, quad = at["linear"].attrs, at["quadratic"].attrs if kind == "q" else None
        val = aprog.con_lhs(Rec("con", at))
        ctx.eq(nm + "left-hand side minus right-hand side at the decoded point", hyp, val - at["rhs"], lhs - rhs)
    ctx.valid(nm + "every constraint is represented", facts + [rng], bor(*guards) if guards else FALSE)
    over = [(x, y) for x in range(len(guards)) for y in range(x) if norm.check(facts + [rng, guards[x], guards[y]], 3000)[0] != z3.unsat]
    ctx.fact(nm + "every constraint is represented once", not over, str(over))


def interpret(ctx):
    eng = setup()
    src = Src(eng, with_q=False, with_l=False)
    install(eng, src)

    def go():
        conv = eng.call(eng.resolve(CLS), [])
        r = eng.call(eng.getattr(conv, "convert"), [src.ref])
        # the point belongs to the converted program: position k holds the value of its k-th variable
        return r, eng.call(eng.getattr(conv, "interpret"), [Rec("pt", {"prog": r, "len": z3.Int("len_x")})])
    dec = decoded(src)
    for k, p in enumerate(eng.explore(go)):
        nm = "interpret path %d: " % k
        facts = eng.facts + p.pc
        if p.out == "raise":
            ctx.fact(nm + "does not raise", False, str(p.val))
            continue
        j = freshi()
        n2, v = vec_at(eng, p.val[1], j, p.cells)
        ctx.valid(nm + "one value per original variable", facts, n2 == src.n)
        ctx.eq(nm + "value is the decoded value", facts + [j >= 0, j < src.n], v, dec(j))
    return eng


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("integer variables have finite integral bounds; ranges below 2**47", "user names do not contain '@'",
               "lemmas on geometric sums and binary digits: the induction principle over the naturals")
    OK.clear()
    TAG["t"] = z3.IntVal(lib.strtag("@%d"))
    ctx.contract("_convert_var", convert_var)
    for what in ("objective", "linear", "quadratic"):
        ctx.contract("IntegerToBinary.convert[%s]" % what, convert(what), par=True)
    ctx.contract("IntegerToBinary.interpret", interpret, par=True)
