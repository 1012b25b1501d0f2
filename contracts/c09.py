"""C09: QuadraticProgramToQubo: the real pipeline over the contracts of its three stages, each of which is proved here from its source."""
from .common import *
from . import c06, c07, c08
from .c04 import exists_defs, exc_name

CLS = PRE + "converters.quadratic_program_to_qubo.QuadraticProgramToQubo"
STAGES = (("ineq", PRE + "converters.inequality_to_equality.InequalityToEquality"), ("bin", PRE + "converters.integer_to_binary.IntegerToBinary"),
          ("pen", PRE + "converters.linear_equality_to_penalty.LinearEqualityToPenalty"))


class Stages:
    """The three stages as their contracts: convert gives a new program (or raises where its contract allows), interpret a new point."""

    def __init__(self, eng, src):
        self.eng, self.src, self.made, self.calls = eng, src, {}, []
        c, i = z3.Ints("qc qi")
        self.nonint = z3.Exists([c, i], z3.And(c >= 0, c < src.m, i >= 0, i < src.n, src.cs(c) != EQ, z3.Not(z3.IsInt(src.cL(c, i)))))
        for nm, cls in STAGES:
            eng.overrides[cls] = NType(cls.rsplit(".", 1)[1], self.ctor(nm))
        eng.rec_handlers["stage", "convert"] = self.convert
        eng.rec_handlers["stage", "interpret"] = self.interpret
        eng.rec_handlers["stage", "penalty="] = self.set_penalty

    def set_penalty(self, eng, o, v):
        o.attrs["penalty"] = v

    def ctor(self, nm):
        def fn(eng, a, k):
            at = {"stage": nm}
            if nm == "ineq":
                at["mode"] = a[0] if a else k.get("mode", "auto")
            if nm == "pen":
                at["penalty"] = a[0] if a else k.get("penalty")
            return Rec("stage", at, ("stage", nm))
        return fn

    def convert(self, eng, a, k):
        st, prob = a[0], (a[1] if len(a) > 1 else k["problem"])
        if st.attrs["stage"] == "ineq" and prob == self.src.ref and eng.branch(self.nonint):
            eng.raise_("QiskitOptimizationError")
        return Rec("made", {"by": st, "of": prob}, ("made", st.attrs["stage"], str(prob)))

    def interpret(self, eng, a, k):
        return Rec("made", {"by": a[0], "of": a[1]}, ("point", a[0].attrs["stage"], str(a[1])))


def chain(v):
    out = []
    while isinstance(v, Rec) and v.kind == "made":
        out.append((v.attrs["by"].attrs["stage"], v.attrs["by"]))
        v = v.attrs["of"]
    return out, v


def pipeline(ctx):
    eng = setup()
    src = Src(eng)
    S = Stages(eng, src)
    c, i = z3.Ints("qc qi")
    incompatible = z3.Or(z3.Exists([i], z3.And(i >= 0, i < src.n, src.vt(i) == 0)), src.q > 0,
                         z3.Exists([c, i], z3.And(c >= 0, c < src.m, i >= 0, i < src.n, z3.Not(z3.IsInt(src.cL(c, i))))))
    lam = z3.Real("penalty_arg")
    for given in (False, True):
        def go():
            conv = eng.call(eng.resolve(CLS), [], {"penalty": lam} if given else {})
            return conv, eng.call(eng.getattr(conv, "convert"), [src.ref])
        nret = 0
        for t, p in enumerate(eng.explore(go)):
            nm = "convert[%s penalty] path %d: " % ("given" if given else "automatic", t)
            facts = eng.facts + p.pc + exists_defs(p.pc)
            ctx.fact(nm + "input not modified", src.untouched(p.cells))
            if p.out == "raise":
                ctx.fact(nm + "raises QiskitOptimizationError", exc_name(p.val) == "QiskitOptimizationError")
                ctx.valid(nm + "rejects only programs with continuous variables, quadratic constraints or non-integral coefficients", facts, incompatible)
                continue
            nret += 1
            ctx.valid(nm + "accepts only bounded-integral linear programs", facts, z3.Not(incompatible))
            ch, base = chain(p.val[1])
            ctx.fact(nm + "result: slack conversion, then binary encoding, then penalties, of the input", [x for x, _ in ch] == ["pen", "bin", "ineq"] and base == src.ref, str(p.val[1]))
            by = dict(ch)
            ctx.fact(nm + "slack variables are integers", by["ineq"].attrs["mode"] == "integer")
            pen = by["pen"].attrs["penalty"]
            if given:
                ctx.valid(nm + "the given penalty is used", facts, real(pen) == lam if pen is not None else z3.BoolVal(False))
            else:
                ctx.fact(nm + "the penalty is automatic", pen is None)
            # interpretation of a QUBO point, on the state the conversion left
            eng.cells = dict(p.cells)
            x = Rec("pt", {"prog": p.val[1]})
            save = eng.pc
            eng.pc = eng.pc + p.pc
            for u, q in enumerate(eng.explore(lambda: eng.call(eng.getattr(p.val[0], "interpret"), [x]))):
                ch2, base2 = chain(q.val) if q.out != "raise" else ([], None)
                ctx.fact("%sinterpret undoes the stages in the opposite order, with the same stages (%d)" % (nm, u),
                         [y for y, _ in ch2] == ["ineq", "bin", "pen"] and base2 is x and all(by[y] is z for y, z in ch2), str(q.val))
            eng.pc = save
        ctx.fact("convert[%s]: some path returns" % given, nret > 0)
    ctx.side(eng, prefix="convert: ")


def compatible(ctx):
    """is_compatible says whether convert accepts."""
    eng = setup()
    src = Src(eng)
    Stages(eng, src)
    c, i = z3.Ints("qc qi")
    incompatible = z3.Or(z3.Exists([i], z3.And(i >= 0, i < src.n, src.vt(i) == 0)), src.q > 0,
                         z3.Exists([c, i], z3.And(c >= 0, c < src.m, i >= 0, i < src.n, z3.Not(z3.IsInt(src.cL(c, i))))))
    for t, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(eng.call(eng.resolve(CLS), [], {}), "is_compatible"), [src.ref]))):
        nm = "is_compatible path %d: " % t
        facts = eng.facts + p.pc + exists_defs(p.pc)
        ctx.fact(nm + "returns", p.out != "raise")
        if p.out == "raise":
            continue
        v = z3.BoolVal(p.val) if isinstance(p.val, bool) else p.val
        ctx.valid(nm + "true exactly for the programs convert accepts", facts, v == z3.Not(incompatible))
        ctx.fact(nm + "input not modified", src.untouched(p.cells))
    ctx.side(eng, prefix="is_compatible: ")


def optimum(ctx):
    """The composition: from the postconditions of the three stages to the property."""
    Bt, X = z3.DeclareSort("QuboPoint"), z3.DeclareSort("Point")
    f = z3.Function("objective", X, R)                    # sense-adjusted original objective
    feas = z3.Function("feasible", X, B)
    dec = z3.Function("decode", Bt, X)                     # original part of the decoded point
    q = z3.Function("qubo", Bt, R)                        # sense-adjusted QUBO objective
    viol = z3.Function("violation", Bt, R)                # sum of squared residuals of the equality rows at the decoded point
    enc = z3.Function("encode", X, Bt)
    pen = z3.Real("penalty")
    b, d, x = z3.Const("b", Bt), z3.Const("d", Bt), z3.Const("x", X)
    H = [z3.ForAll([b], q(b) == f(dec(b)) + pen * viol(b)),                                  # C08: objective; C06, C07: objective preserved
         z3.ForAll([b], z3.Or(viol(b) == 0, viol(b) >= 1)),                                  # C08: residual lemma
         z3.ForAll([b, d], f(dec(b)) - f(dec(d)) <= pen - 1),                                # C08: automatic penalty
         z3.ForAll([b], z3.Implies(viol(b) == 0, feas(dec(b)))),                             # C06: equality rows imply the constraint; C07: rows preserved
         z3.ForAll([x], z3.Implies(feas(x), z3.And(viol(enc(x)) == 0, dec(enc(x)) == x)))]   # C06: slack exists and fits; C07: decoding is onto the box
    bs, xs = z3.Const("b0", Bt), z3.Const("x0", X)
    opt = z3.ForAll([b], q(bs) <= q(b))
    ctx.valid("lemma: a point with matching slack has the original objective value", H + [viol(bs) == 0], q(bs) == f(dec(bs)))
    ctx.valid("lemma: every other point is strictly worse than every feasible one", H + [feas(xs), viol(bs) != 0], q(bs) > f(xs))
    ctx.valid("lemma: the interpretation of a QUBO optimum is feasible", H + [feas(xs), opt], feas(dec(bs)), timeout=20000)
    ctx.valid("lemma: the interpretation of a QUBO optimum is optimal", H + [feas(xs), opt], f(dec(bs)) <= f(xs), timeout=20000)


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("integer variables have integral bounds", "user names do not contain '@'", "inference rule: a sum of non-negative terms is at least each of its terms",
               "the stage postconditions (proved above from their source) are restated as the hypotheses of the composition lemma by hand")
    ctx.contract("QuadraticProgramToQubo.convert / interpret", pipeline, par=True)
    ctx.contract("QuadraticProgramToQubo.is_compatible", compatible, par=True)
    ctx.contract("composition lemma", optimum, par=True)
    c06.CONTRACTS.clear()
    ctx.contract("stage 1: _get_slack_name", c06.slack_name)
    ctx.contract("stage 1: _calc_linear_bounds", c06.linear_bounds)
    ctx.contract("stage 1: _calc_quadratic_bounds", c06.quadratic_bounds)
    ctx.contract("stage 1: InequalityToEquality.convert[integer,l]", c06.convert("integer", "l"), par=True)
    ctx.contract("stage 1: InequalityToEquality.convert[integer,l] (reused instance)", c06.convert("integer", "l", True), par=True)
    ctx.contract("stage 1: InequalityToEquality.interpret", c06.interpret)
    c07.OK.clear()
    c07.TAG["t"] = z3.IntVal(lib.strtag("@%d"))
    ctx.contract("stage 2: _convert_var", c07.convert_var)
    for what in ("objective", "linear"):
        ctx.contract("stage 2: IntegerToBinary.convert[%s]" % what, c07.convert(what), par=True)
        ctx.contract("stage 2: IntegerToBinary.convert[%s] (reused instance)" % what, c07.convert(what, True), par=True)
    ctx.contract("stage 2: IntegerToBinary.interpret", c07.interpret, par=True)
    ctx.contract("stage 3: LinearEqualityToPenalty.convert", c08.convert)
    ctx.contract("stage 3: LinearEqualityToPenalty.convert (reused instance)", c08.reuse)
    ctx.contract("stage 3: residual lemma", c08.residual_lemma)
    ctx.contract("stage 3: LinearEqualityToPenalty.interpret", c08.interpret)
