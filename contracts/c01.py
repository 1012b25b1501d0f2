"""C01 / C02: linear and quadratic expressions, objectives and constraints (the real classes)."""
import ast

from .common import *
from pv import sparse

PR = PRE + "problems."
LIN, QUAD = PR + "linear_expression.LinearExpression", PR + "quadratic_expression.QuadraticExpression"
ZERO = z3.RealVal(0)


def engine():
    eng = setup()
    sparse.install(eng)
    eng.rec_handlers["vindex", "__getitem__"] = index_of
    old = eng.rec_isinstance
    eng.rec_isinstance = lambda v, t: lib.type_name(t) == "ndarray" if v.kind in ("vec", "arrrow") else old(v, t)
    for m in ("linear_expression.LinearExpression", "quadratic_expression.QuadraticExpression", "linear_constraint.LinearConstraint",
              "quadratic_constraint.QuadraticConstraint", "quadratic_objective.QuadraticObjective", "quadratic_program_element.QuadraticProgramElement"):
        eng.overrides.pop(PR + m, None)
        eng.overrides.pop(PR + m.split(".")[1], None)
    src = Src(eng)
    return eng, src


def index_of(eng, a, k):
    nm = as_name(eng, a[1])
    nm = z3.simplify(nm)
    if not (z3.is_app(nm) and nm.decl().name() == "V"):
        raise Unsupported("index of %s" % nm)
    return nm.arg(1)


# ---- input formats: (label, make(eng, n) -> value, coefficient function)
def b1(n):
    return Binder(freshi(), iv(0), n)


def fl(tag):
    return z3.Function("c_" + tag, I, R)


def lin_inputs(eng, n, tag):
    f, g1, g2 = fl(tag), z3.Function("gi_" + tag, I, B), z3.Function("gn_" + tag, I, B)
    b = b1(n)
    yield "list", eng.new(ListV([Seg([b], TRUE, f(b.var))])), f
    b = b1(n)
    yield "array", eng.new(DictV([Piece([b], TRUE, (b.var,), f(b.var))], "arr", shape=(n,))), f
    b = b1(n)
    yield "sparse matrix", eng.new(DictV([Piece([b], TRUE, (iv(0), b.var), f(b.var))], "dok", shape=(iv(1), n))), f
    i = z3.Int("qi")
    eng.facts.append(z3.ForAll([i], z3.Not(z3.And(g1(i), g2(i))), patterns=[g1(i)]))
    b, c = b1(n), b1(n)
    yield "dictionary", eng.new(DictV([Piece([b], g1(b.var), b.var, f(b.var)), Piece([c], g2(c.var), V(c.var, 0), f(c.var))])), \
        lambda i: z3.If(z3.Or(g1(i), g2(i)), f(i), ZERO)


def quad_inputs(eng, n, tag):
    f = z3.Function("q_" + tag, I, I, R)
    tri = lambda h: lambda i, j: z3.If(i < j, h(i, j) + h(j, i), z3.If(i == j, h(i, j), ZERO))
    b, c = b1(n), b1(n)
    inner = eng.new(ListV([Seg([c], TRUE, f(b.var, c.var))]))
    yield "nested list", eng.new(ListV([Seg([b], TRUE, lib.freeze(eng, inner, 0, eng.cells))])), tri(f)
    b, c = b1(n), b1(n)
    yield "array", eng.new(DictV([Piece([b, c], TRUE, (b.var, c.var), f(b.var, c.var))], "arr", shape=(n, n))), tri(f)
    b, c = b1(n), b1(n)
    yield "sparse matrix", eng.new(DictV([Piece([b, c], TRUE, (b.var, c.var), f(b.var, c.var))], "dok", shape=(n, n))), tri(f)
    gs = [z3.Function("g%d_%s" % (k, tag), I, I, B) for k in range(4)]
    i, j = z3.Ints("qi qj")
    for x in range(4):
        for y in range(x):
            eng.facts.append(z3.ForAll([i, j], z3.Not(z3.And(gs[x](i, j), gs[y](i, j))), patterns=[gs[x](i, j), gs[y](i, j)]))
    ps = []
    for g, (kx, ky) in zip(gs, ((0, 0), (0, 1), (1, 0), (1, 1))):
        b, c = b1(n), b1(n)
        key = (V(b.var, 0) if kx else b.var, V(c.var, 0) if ky else c.var)
        ps.append(Piece([b, c], g(b.var, c.var), key, f(b.var, c.var)))
    yield "dictionary", eng.new(DictV(ps)), tri(lambda i, j: z3.If(z3.Or(*[g(i, j) for g in gs]), f(i, j), ZERO))


def coeffs(ctx, nm, eng, facts, cells, obj, want, quad):
    """The stored matrix has the specified entries."""
    eng.cells = dict(cells)
    m = eng.getattr(obj, "coefficients")
    sh, f, kind = sparse.mat(eng, m)
    n = want[1]
    i, j = freshi(), freshi()
    if quad:
        ctx.valid(nm + "shape", facts, z3.And(sh[0] == n, sh[1] == n))
        ctx.valid(nm + "stored coefficients", facts + [i >= 0, i < n, j >= 0, j < n], f(i, j) == want[0](i, j))
    else:
        ctx.valid(nm + "shape", facts, z3.And(sh[0] == 1, sh[1] == n))
        ctx.valid(nm + "stored coefficients", facts + [i >= 0, i < n], f(iv(0), i) == want[0](i))


def build_from(cls, inputs, quad):
    def run(ctx):
        engs = []
        for k in range(4):
            eng, src = engine()
            label, val, want = list(inputs(eng, src.n, "in"))[k]
            snap = eng.cells[val.id]
            nm = "%s from a %s: " % (cls.rsplit(".", 1)[1], label)

            def go():
                return eng.call(eng.raw_class(cls), [src.ref, val])
            for t, p in enumerate(eng.explore(go)):
                facts = eng.facts + p.pc
                if p.out == "raise":
                    ctx.valid(nm + "does not raise (path %d)" % t, facts, z3.BoolVal(False))
                    continue
                coeffs(ctx, nm, eng, facts, p.cells, p.val, (want, src.n), quad)
                ctx.fact(nm + "the argument is left as it was", p.cells[val.id] is snap)
            ctx.side(eng, prefix=nm)
            engs.append(eng)
        return engs
    return run


def bsum(n, f):
    b = b1(n)
    return mk_sum([b], TRUE, f(b.var))


def bsum2(n, f):
    b, c = b1(n), b1(n)
    return mk_sum([b, c], b.var <= c.var, f(b.var, c.var))


def make_lin(eng, src, tag="l"):
    """A linear expression with arbitrary coefficients (built from a sparse matrix; the other formats: construction contracts)."""
    f = fl(tag)
    b = b1(src.n)
    return eng.new(DictV([Piece([b], TRUE, (iv(0), b.var), f(b.var))], "dok", shape=(iv(1), src.n))), f


def make_quad(eng, src, tag="q"):
    f = z3.Function("u_" + tag, I, I, R)
    b, c = b1(src.n), b1(src.n)
    return eng.new(DictV([Piece([b, c], b.var <= c.var, (b.var, c.var), f(b.var, c.var))], "dok", shape=(src.n, src.n))), f


def points(eng, n):
    return lin_inputs(eng, n, "x")


def lin_poly(n, f, x):
    return bsum(n, lambda i: f(i) * x(i))


def quad_poly(n, f, x):
    return bsum2(n, lambda i, j: f(i, j) * x(i) * x(j))


def quad_deriv(n, f, x, i):
    """d/dx_i of sum_{a<=b} f(a,b) x_a x_b."""
    b = b1(n)
    return mk_sum([b], i <= b.var, f(i, b.var) * x(b.var)) + mk_sum([b], b.var <= i, f(b.var, i) * x(b.var))


class Thing:
    """What is evaluated: how to build it, its value and derivative."""

    def __init__(self, label, make, value, deriv):
        self.label, self.make, self.value, self.deriv = label, make, value, deriv


def things(eng, src):
    n = src.n
    ml, l = make_lin(eng, src)
    mq, q = make_quad(eng, src)
    C = lambda nm: eng.raw_class(PR + nm)
    con = z3.Real("k0")
    lv = lambda x: lin_poly(n, l, x)
    qv = lambda x: quad_poly(n, q, x)
    ld = lambda x, i: l(i)
    qd = lambda x, i: quad_deriv(n, q, x, i)
    yield Thing("LinearExpression", lambda: eng.call(C("linear_expression.LinearExpression"), [src.ref, ml]), lv, ld)
    yield Thing("QuadraticExpression", lambda: eng.call(C("quadratic_expression.QuadraticExpression"), [src.ref, mq]), qv, qd)
    yield Thing("QuadraticObjective", lambda: eng.call(C("quadratic_objective.QuadraticObjective"), [src.ref, con, ml, mq]), lambda x: con + lv(x) + qv(x), lambda x, i: ld(x, i) + qd(x, i))
    sense = lambda e: e.getattr(e.resolve(PR + "constraint.ConstraintSense"), "LE")
    yield Thing("LinearConstraint", lambda: eng.call(C("linear_constraint.LinearConstraint"), [src.ref, Name.LN(iv(0)), ml, sense(eng), z3.Real("rhs0")]), lv, None)
    yield Thing("QuadraticConstraint", lambda: eng.call(C("quadratic_constraint.QuadraticConstraint"), [src.ref, Name.QN(iv(0)), ml, mq, sense(eng), z3.Real("rhs0")]),
                lambda x: lv(x) + qv(x), None)


def evaluation(which, gradient):
    def run(ctx):
        engs = []
        for k in range(4):
            eng, src = engine()
            th = list(things(eng, src))[which]
            label, xv, x = list(points(eng, src.n))[k]
            if gradient and th.deriv is None:
                return engs
            if k == 2:
                continue        # points are lists, arrays or dictionaries
            snap = eng.cells[xv.id]
            nm = "%s.%s at a %s: " % (th.label, "evaluate_gradient" if gradient else "evaluate", label)

            def go():
                o = th.make()
                before = dict(eng.cells)
                r = eng.call(eng.getattr(o, "evaluate_gradient" if gradient else "evaluate"), [xv])
                same = all(eng.cells[c] is before[c] for c in before)
                return r, same
            for t, p in enumerate(eng.explore(go)):
                facts = eng.facts + p.pc
                if p.out == "raise":
                    ctx.valid(nm + "does not raise (path %d)" % t, facts, z3.BoolVal(False))
                    continue
                eng.cells = dict(p.cells)
                v, same = p.val
                if gradient:
                    sh, f, kind = sparse.mat(eng, v)
                    i = freshi()
                    ctx.fact(nm + "a vector is returned", len(sh) == 1)
                    ctx.valid(nm + "one entry per variable", facts, sh[0] == src.n)
                    ctx.eq(nm + "the partial derivatives", facts + [i >= 0, i < src.n], f(i), th.deriv(x, i))
                else:
                    ctx.eq(nm + "the value of the polynomial", facts, v, th.value(x))
                ctx.fact(nm + "neither the expression nor the point changes", same and p.cells[xv.id] is snap)
            ctx.side(eng, prefix=nm)
            engs.append(eng)
        return engs
    return run


THINGS = ["LinearExpression", "QuadraticExpression", "QuadraticObjective", "LinearConstraint", "QuadraticConstraint"]


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("numpy / scipy.sparse: a matrix is a total function from positions to reals; dok_matrix, tril, triu, +, -, /, @, transpose, toarray, todok and item access have their documented meaning",
               "items() of a sparse matrix yields some set of positions that contains every non-zero entry",
               "QuadraticProgram.variables_index / get_num_vars / variables: their contracts (property C03)",
               "keys of coefficient dictionaries are indices 0..n-1 or names of variables")
    ctx.contract("LinearExpression (construction)", build_from(LIN, lin_inputs, False), par=True)
    ctx.contract("QuadraticExpression (construction)", build_from(QUAD, quad_inputs, True), par=True)
    for k, t in enumerate(THINGS):
        ctx.contract(t + ".evaluate", evaluation(k, False), par=True)
        if k < 3:
            ctx.contract(t + ".evaluate_gradient", evaluation(k, True), par=True)
