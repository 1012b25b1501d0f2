"""C18: ADMM - the splitting functions of the real ADMMOptimizer, one contract each."""
from .common import *
from pv import loops, whiles
from pv.norm import check
from pv.interp import ContinueEx, Infeasible
import ast

AD = PRE + "algorithms.admm_optimizer."
CLS = AD + "ADMMOptimizer"


def fn(nm, *s):
    return z3.Function(nm, *s)


class Index:
    """An increasing list of positions at(0) < ... < at(size-1) with its characteristic function and rank."""

    def __init__(self, eng, nm, within=None):
        self.size, self.at, self.rank, self.member = z3.Int("n_" + nm), fn(nm, I, I), fn("rank_" + nm, I, I), fn("in_" + nm, I, B)
        k, i = z3.Int("k"), z3.Int("i")
        eng.facts += [self.size >= 0,
                      z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.size), z3.And(self.member(self.at(k)), self.rank(self.at(k)) == k, self.at(k) >= 0, self.at(k) < within)), patterns=[self.at(k)]),
                      z3.ForAll([i], z3.Implies(self.member(i), z3.And(self.rank(i) >= 0, self.rank(i) < self.size, self.at(self.rank(i)) == i)), patterns=[self.member(i)]),
                      z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i <= k, k < self.size), self.at(i) <= self.at(k)), patterns=[z3.MultiPattern(self.at(i), self.at(k))])]
        b = Binder(freshi(), iv(0), self.size)
        self.ref = eng.new(ListV([Seg([b], TRUE, self.at(b.var))]))


class World:
    def __init__(self):
        eng = self.eng = setup()
        self.n, self.rows = z3.Int("n_vars"), z3.Int("n_rows")
        eng.facts += [self.n >= 0, self.rows >= 0]
        self.bin, self.cts = Index(eng, "binary", self.n), Index(eng, "continuous", self.n)
        i = z3.Int("i")
        eng.facts += [self.bin.size + self.cts.size == self.n,
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), self.bin.member(i) != self.cts.member(i)), patterns=[self.bin.member(i)]),
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), self.bin.member(i) != self.cts.member(i)), patterns=[self.cts.member(i)])]
        # the first block: positions among the binary variables
        self.rel = Index(eng, "relative", self.bin.size)
        b = Binder(freshi(), iv(0), self.rel.size)
        self.absref = eng.new(ListV([Seg([b], TRUE, self.bin.at(self.rel.at(b.var)))]))
        self.L, self.Q = fn("op_linear", I, R), fn("op_quadratic", I, I, R)
        self.real = {x: z3.Real(x) for x in ("rho", "factor_c", "beta", "mu_merit")}
        self.vecs = {x: fn(x, I, R) for x in ("x0", "z", "y", "lambda_mult", "u", "z_init")}
        nb = self.bin.size
        size = {x: nb for x in self.vecs}
        size["u"] = self.cts.size
        self.q0, self.c0, self.a0, self.b0 = fn("q0", I, I, R), fn("c0", I, R), fn("a0", I, I, R), fn("b0", I, R)
        S = self.rel.size
        fields = {x: arr((size[x],), f) for x, f in self.vecs.items()}
        fields.update(q0=arr((S, S), self.q0), c0=arr((S,), self.c0), a0=arr((self.rows, S), self.a0), b0=arr((self.rows,), self.b0), rho=self.real["rho"],
                      binary_indices=self.bin.ref, continuous_indices=self.cts.ref, step1_absolute_indices=self.absref, step1_relative_indices=self.rel.ref,
                      op=Rec("op", {}, ("op",)))
        self.state = eng.new(ObjV("AState", fields))
        pars = {x: self.real[x] for x in ("factor_c", "beta", "mu_merit")}
        pars.update(rho_initial=z3.Real("rho_initial"), tol=z3.Real("tol"), max_time=z3.Real("max_time"), maxiter=z3.Int("maxiter"), three_block=z3.Bool("three_block"), warm_start=z3.Bool("warm_start"),
                    tau_incr=z3.Real("tau_incr"), tau_decr=z3.Real("tau_decr"), mu_res=z3.Real("mu_res"), vary_rho=z3.Int("vary_rho"))
        self.params = Rec("params", pars, ("params",))
        self.me = eng.new(ObjV(eng.raw_class(CLS), {"_state": self.state, "_params": self.params, "_qubo_optimizer": Rec("solver", {"which": "qubo"}),
                                                   "_continuous_optimizer": Rec("solver", {"which": "continuous"}), "_log": Rec("log", {})}))
        self.install()

    def install(self):
        eng = self.eng
        H, oh, nat = eng.rec_handlers, eng.obj_handlers, eng.natives
        for op, f in (("add", lambda x, y: x + y), ("sub", lambda x, y: x - y), ("mul", lambda x, y: x * y), ("truediv", lambda x, y: x / y)):
            for c, T in (("arr", H), ("AArr", eng.obj_ops)):
                T[c, "__%s__" % op] = lambda e, a, k, f=f: elementwise(e, a[0], a[1], f)
                T[c, "__r%s__" % op] = lambda e, a, k, f=f: elementwise(e, a[1], a[0], f)
        H["arr", "__neg__"] = lambda e, a, k: elementwise(e, iv(-1), a[0], lambda x, y: x * y)
        H["arr", "__matmul__"] = lambda e, a, k: dot(e, a[0], a[1])
        for c, T in (("arr", H), ("AArr", eng.obj_ops)):
            T[c, "__getitem__"] = take
            T[c, "__len__"] = lambda e, a, k: as_arr(e, a[0])[0][0]
        for T, c in ((H, "arr"), (oh, "AArr")):
            T[c, "transpose"] = lambda e, a, k: transpose(e, a[0])
            T[c, "T"] = (lambda e, o: transpose(e, o),)
            T[c, "take"] = take
            T[c, "dot"] = lambda e, a, k: dot(e, a[0], a[1])
        eng.obj_ops["AArr", "__setitem__"] = self.put
        oh["AArr", "put"] = self.put
        zeros = nat["numpy.zeros"]

        def np_zeros(e, a, k):
            sh = a[0] if a else k.get("shape")
            if isinstance(sh, tuple) and len(sh) == 2:
                return e.call(zeros, [sh], {})
            if isinstance(sh, tuple):
                (sh,) = sh
            return e.new(ObjV("AArr", {"a": arr((lib.num(sh),), lambda i: z3.RealVal(0))}))
        nat["numpy.zeros"] = NativeV("zeros", np_zeros)
        nat["numpy.eye"] = nat["numpy.identity"] = NativeV("eye", lambda e, a, k: arr((lib.num(a[0]), lib.num(a[0])), lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0))))
        nat["numpy.dot"] = nat["numpy.matmul"] = NativeV("dot", lambda e, a, k: dot(e, a[0], a[1]))
        nat["numpy.transpose"] = NativeV("transpose", lambda e, a, k: transpose(e, a[0]))
        nat["numpy.take"] = NativeV("take", take)
        old = nat["numpy.asarray"]
        nat["numpy.asarray"] = nat["numpy.array"] = NativeV("asarray", lambda e, a, k: a[0] if is_arr(e, a[0]) else e.call(old, a, k))
        # the problem
        H["op", "variables"] = (lambda e, o: Rec("opvars", {}),)
        H["opvars", "__getitem__"] = lambda e, a, k: Rec("opvar", {"name": V(lib.num(a[1]))})
        H["op", "objective"] = (lambda e, o: Rec("opobj", {}),)
        H["opobj", "linear"] = (lambda e, o: Rec("oplin", {}),)
        H["opobj", "quadratic"] = (lambda e, o: Rec("opquad", {}),)
        H["oplin", "to_array"] = lambda e, a, k: arr((self.n,), self.L)
        H["oplin", "__getitem__"] = lambda e, a, k: self.L(lib.num(a[1]))
        H["opquad", "__getitem__"] = self.quad_entry
        # new programs
        eng.overrides[PRE + "problems.quadratic_program.QuadraticProgram"] = NType("QuadraticProgram", self.new_prog)
        oh["NProg", "binary_var"] = self.add_var(1)
        oh["NProg", "continuous_var"] = self.add_var(0)

    def no(self, why):
        raise Unsupported(why)

    def quad_entry(self, e, a, k):
        if not isinstance(a[1], tuple) or len(a[1]) != 2:
            raise Unsupported("entry of a quadratic expression")
        i, j = (lib.num(x) for x in a[1])
        return self.pair(i, j)

    def pair(self, i, j):
        return self.Q(z3.If(i <= j, i, j), z3.If(i <= j, j, i))

    def new_prog(self, e, a, k):
        if a or k:
            raise Unsupported("QuadraticProgram arguments")
        obj = e.new(ObjV("NObj", {"constant": 0.0, "linear": None, "quadratic": None, "sense": None}))
        for nm in ("constant", "linear", "quadratic", "sense"):
            e.obj_setters["NObj", nm] = lambda e, o, v, nm=nm: aprog.setf(e, o, nm, v)
        return e.new(ObjV("NProg", {"vars": e.new(ListV([])), "objective": obj}))

    def add_var(self, t):
        def f(e, a, k):
            names = ["name"] if t == 1 else ["lowerbound", "upperbound", "name"]
            vals = dict(zip(names, a[1:]))
            vals.update(k)
            if vals.get("name") is None or set(vals) - set(names):
                raise Unsupported("variable")
            inf = z3.Real("infinity")

            def bound(x, default):
                if isinstance(x, float) and x in (float("inf"), -float("inf")):
                    return inf if x > 0 else -inf
                return default if x is None else real(x)
            lib.append(e, e.cell(a[0]).fields["vars"], Rec("nvar", {"name": lib.as_name(e, vals["name"]), "type": iv(t), "lb": bound(vals.get("lowerbound"), z3.RealVal(0)), "ub": bound(vals.get("upperbound"), inf)}))
        return f

    def put(self, e, a, k):
        """array.put(positions, values) and array[positions] = values for a list of distinct positions."""
        ref, pos, val = a
        ix = self.index_of(e, pos)
        (m,), g = as_arr(e, val)
        shape, old = as_arr(e, ref)
        if not e.entailed(m == ix.size):
            raise Unsupported("values of another length")
        e.put(ref, ObjV("AArr", {"a": arr(shape, lambda i: z3.If(ix.member(i), g(ix.rank(i)), old(i)))}))

    def index_of(self, e, ref):
        c = e.cell(ref) if isinstance(ref, Ref) else None
        if isinstance(c, ListV) and len(c.segs) == 1:
            for ix in (self.bin, self.cts, self.rel):
                s = e.cell(ix.ref).segs[0]
                if c.segs[0] is s or c is e.cell(ix.ref):
                    return ix
        raise Unsupported("positions %r" % (ref,))


def arr(shape, f):
    def g(*i):
        return f(*i)
    return Rec("arr", {"shape": tuple(shape), "f": g})


def is_arr(e, v):
    return isinstance(v, Rec) and v.kind == "arr" or isinstance(v, Ref) and isinstance(e.cell(v), ObjV) and e.cell(v).cls == "AArr"


def as_arr(e, v):
    if isinstance(v, Ref) and isinstance(e.cell(v), ObjV) and e.cell(v).cls == "AArr":
        v = e.cell(v).fields["a"]
    if isinstance(v, Rec) and v.kind == "arr":
        return v.attrs["shape"], v.attrs["f"]
    raise Unsupported("array %r" % (v,))


def same_dim(e, x, y):
    if not (x.eq(y) or e.entailed(x == y)):
        raise Unsupported("arrays of different size")


def elementwise(e, a, b, f):
    if not is_arr(e, a):
        s, g = as_arr(e, b)
        a = real(a)
        return arr(s, lambda *i: f(a, g(*i)))
    s, g = as_arr(e, a)
    if not is_arr(e, b):
        b = real(b)
        return arr(s, lambda *i: f(g(*i), b))
    t, h = as_arr(e, b)
    if len(s) != len(t):
        raise Unsupported("broadcasting")
    for x, y in zip(s, t):
        same_dim(e, x, y)
    return arr(s, lambda *i: f(g(*i), h(*i)))


def transpose(e, a):
    s, f = as_arr(e, a)
    return arr(s, f) if len(s) == 1 else arr((s[1], s[0]), lambda i, j: f(j, i))


def dot(e, a, b):
    (s, f), (t, g) = as_arr(e, a), as_arr(e, b)
    same_dim(e, s[-1], t[0])

    def sm(F):
        b = Binder(freshi(), iv(0), s[-1])
        return mk_sum([b], TRUE, F(b.var))
    n, m = len(s), len(t)
    if (n, m) == (1, 1):
        return sm(lambda r: f(r) * g(r))
    if (n, m) == (1, 2):
        return arr((t[1],), lambda j: sm(lambda r: f(r) * g(r, j)))
    if (n, m) == (2, 1):
        return arr((s[0],), lambda i: sm(lambda r: f(i, r) * g(r)))
    return arr((s[0], t[1]), lambda i, j: sm(lambda r: f(i, r) * g(r, j)))


def take(e, a, k):
    shape, f = as_arr(e, a[0])
    ix = a[1]
    if lib.is_num(ix):
        return f(lib.num(ix))
    c = e.cell(ix) if isinstance(ix, Ref) else None
    if isinstance(c, ListV) and len(c.segs) == 1 and len(c.segs[0].binders) == 1 and z3.is_true(c.segs[0].guard) and len(shape) == 1:
        s = c.segs[0]
        b = s.binders[0]
        if z3.is_int_value(b.lo) and b.lo.as_long() == 0:
            e.obls.append(("positions are within the array", list(e.pc) + [b.range()], z3.And(s.val >= 0, s.val < shape[0])))
            return arr((b.hi,), lambda i: f(subst(s.val, [(b.var, i)])))
    raise Unsupported("array index")


def sums(dims, F):
    bs = [Binder(freshi(), iv(0), d) for d in dims]
    return mk_sum(bs, TRUE, F(*[b.var for b in bs]))


def returns(ctx, eng, what, thunk):
    """The returning paths; every other outcome is a failed obligation."""
    done = 0
    for u, p in enumerate(eng.explore(thunk)):
        nm = "%s path %d: " % (what, u)
        if p.out != "normal" and p.out != "return":
            ctx.valid(nm + "does not raise", eng.facts + p.pc, z3.BoolVal(False))
            continue
        done += 1
        yield nm, eng.facts + p.pc, p
    ctx.fact(what + ": some path returns", done > 0)


class cells_of:
    def __init__(self, eng, p):
        self.eng, self.p = eng, p

    def __enter__(self):
        self.old, self.eng.cells = self.eng.cells, self.p.cells

    def __exit__(self, *_):
        self.eng.cells = self.old


def objective(eng, prog, x):
    """Value of the objective of a new program at x, and the number of variables."""
    o = eng.cell(eng.cell(prog).fields["objective"]).fields
    (n,), lin = as_arr(eng, o["linear"])
    (n2, n3), quad = as_arr(eng, o["quadratic"])
    same_dim(eng, n, n2)
    same_dim(eng, n, n3)
    return n, real(o["constant"]) + sums([n], lambda i: lin(i) * x(i)) + sums([n, n], lambda i, j: quad(i, j) * x(i) * x(j)), o["sense"]


def variables(ctx, nm, facts, lst, size, name, kind, lb, ub):
    (s,) = lst.segs
    b = s.binders[0]
    ctx.valid(nm + "one variable per position, in order", facts, z3.And(b.lo == 0, b.hi == size, *([] if z3.is_true(s.guard) else [z3.ForAll([b.var], s.guard)])))
    at = s.val.attrs
    ctx.valid(nm + "names, types and bounds", facts + [b.range()], z3.And(at["name"] == name(b.var), at["type"] == kind, *([] if lb is None else [at["lb"] == lb, at["ub"] == ub])))


def step1(ctx):
    W = World()
    eng, r = W.eng, W.real
    x = fn("point", I, R)
    for nm, facts, p in returns(ctx, eng, "_create_step1_problem", lambda: eng.call(eng.getattr(W.me, "_create_step1_problem"), [])):
        with cells_of(eng, p):
            S = W.rel.size
            variables(ctx, nm, facts, eng.cell(eng.cell(p.val).fields["vars"]), S, lambda k: V(W.bin.at(W.rel.at(k))), 1, None, None)
            n, val, sense = objective(eng, p.val, x)
            ctx.valid(nm + "size", facts, n == S)
            ctx.fact(nm + "it is minimised", sense is None)
            at = lambda f: (lambda i: W.vecs[f](W.rel.at(i)))
            row = lambda q: sums([S], lambda i: W.a0(q, i) * x(i)) - W.b0(q)
            spec = (sums([S, S], lambda i, j: W.q0(i, j) * x(i) * x(j)) + sums([S], lambda i: W.c0(i) * x(i))
                    + r["factor_c"] / 2 * sums([W.rows], lambda q: row(q) * row(q) - W.b0(q) * W.b0(q))
                    + sums([S], lambda i: at("lambda_mult")(i) * x(i) + r["rho"] / 2 * x(i) * x(i) - r["rho"] * (at("y")(i) + at("z")(i)) * x(i)))
            ctx.eq(nm + "minimises the binary part, the equality residuals, the multipliers and the penalty", facts, val, spec)
    ctx.side(eng, prefix="_create_step1_problem: ")


def step3(ctx):
    W = World()
    eng, r = W.eng, W.real
    y = fn("point", I, R)
    for nm, facts, p in returns(ctx, eng, "_create_step3_problem", lambda: eng.call(eng.getattr(W.me, "_create_step3_problem"), [])):
        with cells_of(eng, p):
            nb = W.bin.size
            lst = eng.cell(eng.cell(p.val).fields["vars"])
            variables(ctx, nm, facts, lst, nb, lambda k: V(W.bin.at(k)), 0, -z3.Real("infinity"), z3.Real("infinity"))
            n, val, sense = objective(eng, p.val, y)
            ctx.valid(nm + "size", facts, n == nb)
            ctx.fact(nm + "it is minimised", sense is None)
            v = W.vecs
            d = lambda i: v["x0"](i) - v["z"](i)
            spec = sums([nb], lambda i: r["beta"] / 2 * y(i) * y(i) + v["lambda_mult"](i) * (d(i) - y(i)) + r["rho"] / 2 * (d(i) - y(i)) * (d(i) - y(i)))
            const = sums([nb], lambda i: v["lambda_mult"](i) * d(i) + r["rho"] / 2 * d(i) * d(i))
            ctx.eq(nm + "minimises the multipliers and penalties over the third block", facts, val, spec - const)
    ctx.side(eng, prefix="_create_step3_problem: ")


def updates(ctx):
    W = World()
    eng, v = W.eng, W.vecs
    H = eng.rec_handlers
    sol = fn("sub_solution", I, R)
    op = Rec("subprogram", {}, ("subprogram",))
    lens = {}

    def solve(e, a, k):
        if a[1] is not op:
            raise Unsupported("another sub-problem is solved")
        return Rec("subresult", {"x": arr((lens["n"],), sol), "which": a[0].attrs["which"]})
    H["solver", "solve"] = solve
    i = z3.Int("any_i")

    def run(name, size):
        lens["n"] = size
        return returns(ctx, eng, name, lambda: eng.call(eng.getattr(W.me, name), [op]))

    def entries(nm, facts, got, n, want):
        (m,), f = as_arr(eng, got)
        ctx.valid(nm + ": length", facts, m == n)
        ctx.valid(nm + ": entries", facts + [i >= 0, i < n], f(i) == want(i))
    nb, nc = W.bin.size, W.cts.size
    for nm, facts, p in run("_update_x0", W.rel.size):
        with cells_of(eng, p):
            entries(nm + "the first block's values at their positions, zero elsewhere", facts, p.val, nb, lambda i: z3.If(W.rel.member(i), sol(W.rel.rank(i)), z3.RealVal(0)))
    for nm, facts, p in run("_update_x1", W.n):
        with cells_of(eng, p):
            u, z = p.val
            entries(nm + "continuous values", facts, u, nc, lambda i: sol(W.cts.at(i)))
            entries(nm + "relaxed binary values", facts, z, nb, lambda i: sol(W.bin.at(i)))
    for nm, facts, p in run("_update_y", nb):
        with cells_of(eng, p):
            entries(nm + "values of the third block", facts, p.val, nb, sol)
    for nm, facts, p in returns(ctx, eng, "_update_lambda_mult", lambda: eng.call(eng.getattr(W.me, "_update_lambda_mult"), [])):
        with cells_of(eng, p):
            entries(nm + "multipliers", facts, p.val, nb, lambda i: v["lambda_mult"](i) + W.real["rho"] * (v["x0"](i) - v["z"](i) - v["y"](i)))
    bv, cv = fn("binary_values", I, R), fn("continuous_values", I, R)
    for nm, facts, p in returns(ctx, eng, "_revert_solution_indexes", lambda: eng.call(eng.getattr(W.me, "_revert_solution_indexes"), [arr((nb,), bv), arr((nc,), cv)])):
        with cells_of(eng, p):
            entries(nm + "each value at the position of its variable", facts, p.val, W.n, lambda i: z3.If(W.bin.member(i), bv(W.bin.rank(i)), cv(W.cts.rank(i))))
    for nm, facts, p in returns(ctx, eng, "_get_current_solution", lambda: eng.call(eng.getattr(W.me, "_get_current_solution"), [])):
        with cells_of(eng, p):
            entries(nm + "the current values at the positions of their variables", facts, p.val, W.n, lambda i: z3.If(W.bin.member(i), v["x0"](W.bin.rank(i)), v["u"](W.cts.rank(i))))
    ctx.side(eng, prefix="updates: ")


def square(ctx, nm, facts, binders, guard):
    """Ranges that start at a symbolic position start at 0 and get a condition instead."""
    out = []
    for b in binders:
        lo = z3.simplify(b.lo)
        if not z3.is_int_value(lo):
            ctx.valid(nm + "ranges start at 0 or later", facts + [c.range() for c in out], b.lo >= 0)
            guard = band(guard, b.var >= b.lo)
            b = Binder(b.var, iv(0), b.hi)
        out.append(b)
    return out, guard


def blocks(ctx):
    """_get_q: the quadratic terms among the listed variables."""
    W = World()
    eng = W.eng
    x = fn("point", I, R)
    for ref, size, at, what in ((W.absref, W.rel.size, lambda k: W.bin.at(W.rel.at(k)), "first block"), (W.cts.ref, W.cts.size, W.cts.at, "continuous block")):
        for nm, facts, p in returns(ctx, eng, "_get_q (%s)" % what, lambda: eng.call(eng.getattr(W.me, "_get_q"), [ref])):
            d = p.cells[p.val.id]
            if not isinstance(d, DictV) or d.kind != "arr":
                raise Unsupported("matrix %r" % (d,))
            ctx.valid(nm + "shape", facts, z3.And(*[s == size for s in d.shape]))
            got = z3.RealVal(0)
            for q in d.pieces:
                if q.mode not in ("add", "set") or len(d.pieces) > 1:
                    raise Unsupported("matrix pieces")
                bs, g = square(ctx, nm, facts, q.binders, q.guard)
                got = got + mk_sum(bs, g, real(q.val) * x(q.key[0]) * x(q.key[1]))
            a, b = Binder(freshi(), iv(0), size), Binder(freshi(), iv(0), size)
            ctx.eq(nm + "every pair once", facts, got, mk_sum([a, b], a.var <= b.var, W.pair(at(a.var), at(b.var)) * x(a.var) * x(b.var)))
    ctx.side(eng, prefix="_get_q: ")


def indices(ctx):
    eng = setup()
    src = Src(eng)
    cls = eng.raw_class(CLS)
    t = eng.resolve(PRE + "problems.variable.VarType")
    for code, nm_t in enumerate(("CONTINUOUS", "BINARY", "INTEGER")):
        for nm, facts, p in returns(ctx, eng, "_get_variable_indices (%s)" % nm_t.lower(), lambda: eng.call(eng.getattr(cls, "_get_variable_indices"), [src.ref, eng.getattr(t, nm_t)])):
            lst = p.cells[p.val.id]
            if len(lst.segs) != 1 or len(lst.segs[0].binders) != 1:
                raise Unsupported("list of another form")
            (s,) = lst.segs
            b = s.binders[0]
            ctx.valid(nm + "all positions, in order", facts, z3.And(b.lo == 0, b.hi == src.n))
            ctx.valid(nm + "exactly the variables of that type", facts + [b.range()], s.guard == (src.vt(b.var) == code))
            ctx.valid(nm + "their positions", facts + [b.range(), s.guard], s.val == b.var)
            ctx.fact(nm + "the program is left as it was", src.untouched(p.cells))
    ctx.side(eng, prefix="_get_variable_indices: ")


class Cons:
    """A list of constraints of the problem (equalities over binary variables, equalities, inequalities)."""

    def __init__(self, W, nm, sense=None):
        eng = W.eng
        self.nm, self.m, self.coef, self.rhs, self.value, self.sense = nm, z3.Int("n_" + nm), fn(nm + "_coef", I, I, R), fn(nm + "_rhs", I, R), fn(nm + "_value", I, R), fn(nm + "_sense", I, I)
        self.name = lambda c: V(c, lib.strtag(nm))
        q = z3.Int("q")
        eng.facts += [self.m >= 0, z3.ForAll([q], z3.And(self.sense(q) >= 0, self.sense(q) <= 2) if sense is None else sense(self.sense(q)), patterns=[self.sense(q)])]
        b = Binder(freshi(), iv(0), self.m)
        c = b.var
        lin = Rec("gconlin", {"f": lambda i: self.coef(c, i), "n": W.n})
        self.ref = eng.new(ListV([Seg([b], TRUE, Rec("gcon", {"name": self.name(c), "rhs": self.rhs(c), "sense": SymEnum("ConstraintSense", self.sense(c)), "linear": lin, "value": self.value(c), "of": nm}, ("gcon", nm, c)))]))
        H = eng.rec_handlers
        H["gconlin", "to_array"] = lambda e, a, k: arr((a[0].attrs["n"],), a[0].attrs["f"])
        H["gconlin", "__getitem__"] = lambda e, a, k: a[0].attrs["f"](lib.num(a[1]))


def with_arrays(W):
    """Arrays made of lists."""
    eng = W.eng
    H, nat = eng.rec_handlers, eng.natives
    H["arr", "tolist"] = lambda e, a, k: a[0]
    H["arr", "reshape"] = reshape
    old = nat["numpy.array"]

    def np_array(e, a, k):
        c = e.cell(a[0]) if isinstance(a[0], Ref) else None
        if isinstance(c, ListV) and len(c.segs) == 1 and len(c.segs[0].binders) == 1 and z3.is_true(c.segs[0].guard):
            s = c.segs[0]
            b = s.binders[0]
            if z3.is_int_value(b.lo) and b.lo.as_long() == 0:
                at = lambda i: vsub(s.val, [(b.var, i)])
                if isinstance(s.val, Rec) and s.val.kind == "arr" and len(s.val.attrs["shape"]) == 1:
                    return arr((b.hi, s.val.attrs["shape"][0]), lambda i, j: at(i).attrs["f"](j))
                if lib.is_num(s.val):
                    return arr((b.hi,), lambda i: real(at(i)))
        return e.call(old, a, k)
    nat["numpy.array"] = nat["numpy.asarray"] = NativeV("array", np_array)


def reshape(e, a, k):
    s, f = as_arr(e, a[0])
    sh = a[1] if isinstance(a[1], tuple) else tuple(a[1:])
    if len(s) == 1 and len(sh) == 2 and lib.conc(sh[0]) == 1 and lib.conc(sh[1]) == -1:
        return arr((iv(1), s[0]), lambda i, j: f(j))
    raise Unsupported("reshape")


def equalities(ctx):
    W = World()
    eng = W.eng
    with_arrays(W)
    C = Cons(W, "binary_equality")
    aprog.setf(eng, W.state, "binary_equality_constraints", C.ref)
    x = fn("point", I, R)
    S = W.rel.size
    for nm, facts, p in returns(ctx, eng, "_get_a0_b0", lambda: eng.call(eng.getattr(W.me, "_get_a0_b0"), [])):
        with cells_of(eng, p):
            A, b = p.val
            (m, n), f = as_arr(eng, A)
            (m2,), g = as_arr(eng, b)
            ctx.valid(nm + "shapes fit", facts, z3.And(m == m2, n == S))
            sq = lambda rows, lhs, rhs: sums([rows], lambda q: (lhs(q) - rhs(q)) * (lhs(q) - rhs(q)))
            got = sq(m, lambda q: sums([S], lambda i: f(q, i) * x(i)), g)
            ctx.eq(nm + "the squared residuals are those of the equalities over binary variables", facts, got,
                   sq(C.m, lambda q: sums([S], lambda i: C.coef(q, W.bin.at(W.rel.at(i))) * x(i)), C.rhs))
    ctx.side(eng, prefix="_get_a0_b0: ")


def measures(ctx):
    """Cost, constraint residual, merit and iteration residuals of the current iterate."""
    W = World()
    eng, v, r = W.eng, W.vecs, W.real
    H = eng.rec_handlers
    E = Cons(W, "equality", lambda t: t == 2)
    N = Cons(W, "inequality", lambda t: z3.Or(t == 0, t == 1))
    aprog.setf(eng, W.state, "equality_constraints", E.ref)
    aprog.setf(eng, W.state, "inequality_constraints", N.ref)
    cost = z3.Real("objective_at_current")

    def current(e, sol):
        (m,), f = as_arr(e, sol)
        i = freshi()
        if not (e.entailed(m == W.n) and e.entailed(z3.Implies(z3.And(i >= 0, i < W.n), f(i) == z3.If(W.bin.member(i), v["x0"](W.bin.rank(i)), v["u"](W.cts.rank(i)))))):
            e.obls.append(("evaluated at the current values in the original order", list(e.pc), z3.BoolVal(False)))

    def value(t):
        def h(e, a, k):
            current(e, a[1])
            return t(a[0])
        return h
    H["gcon", "evaluate"] = value(lambda c: c.attrs["value"])
    H["opobj", "evaluate"] = value(lambda c: cost)
    absv = lambda t: z3.If(t >= 0, t, -t)
    run = lambda name, *args: returns(ctx, eng, name, lambda: eng.call(eng.getattr(W.me, name), list(args)))
    for nm, facts, p in run("_get_objective_value"):
        ctx.valid(nm + "the objective at the current values", facts, real(p.val) == cost)
    for nm, facts, p in run("_get_constraint_residual"):
        q = lambda F, C: sums([C.m], F)
        viol = lambda c: z3.If(N.sense(c) == 1, N.rhs(c) - N.value(c), N.value(c) - N.rhs(c))
        spec = q(lambda c: absv(E.value(c) - E.rhs(c)), E) + q(lambda c: z3.If(viol(c) > 0, viol(c), z3.RealVal(0)), N)
        ctx.eq(nm + "total violation of the constraints", facts, real(p.val), spec)
    a, b = z3.Reals("cost violation")
    for nm, facts, p in run("_get_merit", a, b):
        ctx.valid(nm + "cost plus weighted violation", facts, real(p.val) == a + r["mu_merit"] * b)
    ctx.side(eng, prefix="measures: ")


def residuals(ctx):
    """The recorded residuals: distance of x0 from z + y, and the penalty times the distance of z from the z before."""
    W = World()
    eng, v, rho = W.eng, W.vecs, W.real["rho"]
    nb, i = W.bin.size, z3.Int("any_i")
    saved, t = fn("z_saved", I, I, R), z3.Int("iteration")
    eng.facts += [t >= 0]
    ln = z3.Int("n_z_saved")

    def entry(e, a, k):
        q = lib.num(a[1])
        e.obls.append(("an iterate that was recorded", list(e.pc), z3.And(q >= -ln, q < ln)))
        return arr((nb,), lambda x: saved(z3.If(q >= 0, q, q + ln), x))
    eng.rec_handlers["zhist", "__getitem__"] = entry
    eng.rec_handlers["zhist", "__len__"] = lambda e, a, k: ln
    aprog.setf(eng, W.state, "z_saved", Rec("zhist", {}))
    eng.facts += [ln == t]
    seen = {}

    def norm(e, a, k):
        if len(a) != 1 or k:
            raise Unsupported("norm")
        r = z3.FreshReal("norm")
        seen[r.get_id()] = (r, as_arr(e, a[0]))
        e.pc.append(r >= 0)
        return r
    eng.natives["numpy.linalg.norm"] = NativeV("norm", norm)

    def is_norm(nm, facts, val, scale, f):
        inside = [x for x in seen.values() if not z3.substitute(val, (x[0], x[0] + 1)).eq(val)]
        if len(inside) == 1:
            ((r, ((m,), g)),) = inside
            ctx.valid(nm + ", scale", facts, val == scale * r)
            ctx.valid(nm + ": of the binary positions", facts, m == nb)
            # a norm does not see the sign
            ctx.valid(nm, facts + [i >= 0, i < nb], z3.Or(g(i) == f(i), g(i) == -f(i)))
            return
        raise Unsupported("residual that is not a norm")
    for nm, facts, p in returns(ctx, eng, "_get_solution_residuals", lambda: eng.call(eng.getattr(W.me, "_get_solution_residuals"), [t])):
        with cells_of(eng, p):
            if not isinstance(p.val, tuple) or len(p.val) != 2:
                raise Unsupported("residuals")
            first, second = (real(x) for x in p.val)
            is_norm(nm + "primal residual", facts, first, z3.RealVal(1), lambda x: v["x0"](x) - v["z"](x) - v["y"](x))
            is_norm(nm + "dual residual", facts, second, rho, lambda x: v["z"](x) - z3.If(t == 0, v["z_init"](x), saved(t - 1, x)))
    ctx.side(eng, prefix="_get_solution_residuals: ")


def best(ctx):
    """The iterate with the least merit."""
    W = World()
    eng = W.eng
    H, nat = eng.rec_handlers, eng.natives
    k = z3.Int("n_iterations")
    names = {"merits": R, "cost_iterates": R, "x0_saved": I, "u_saved": I}
    vals = {x: fn("recorded_" + x, I, so) for x, so in names.items()}
    for x, f in vals.items():
        aprog.setf(eng, W.state, x, Rec("hist", {"f": f, "nm": x}, ("hist", x)))
    eng.facts.append(k >= 1)
    H["hist", "__len__"] = lambda e, a, kk: k

    def item(e, a, kk):
        i = lib.num(a[1])
        e.obls.append(("an iteration that took place", list(e.pc), z3.And(i >= 0, i < k)))
        return saved(a[0], i)

    def saved(o, i):
        t = o.attrs["f"](i)
        return t if t.sort() == R else Rec("saved", {"nm": o.attrs["nm"], "k": i})
    H["hist", "__getitem__"] = item
    q = z3.Int("q")

    def least(e, f):
        w = lib.skolem(e, "least", I)
        e.aux_fact(z3.And(w >= 0, w < k))
        e.aux_fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), f(w) <= f(q)), patterns=[f(q)]))
        return w
    H["hist", "__iter__"] = lambda e, a, kk: (lambda b: SeqV([Seg([b], TRUE, saved(a[0], b.var))]))(Binder(freshi(), iv(0), k))

    def index(e, a, kk):
        f, x = a[0].attrs["f"], real(a[1])
        w = lib.skolem(e, "found", I)
        if not e.entailed(z3.Exists([q], z3.And(q >= 0, q < k, f(q) == x))):
            raise Unsupported("index of a value that may be missing")
        e.aux_fact(z3.And(w >= 0, w < k, f(w) == x))
        return w
    H["hist", "index"] = index
    old = eng.builtins["min"]

    def mn(e, a, kk):
        if len(a) == 1 and isinstance(a[0], Rec) and a[0].kind == "hist" and not kk:
            f = a[0].attrs["f"]
            return f(least(e, f))
        return e.call(old, a, kk)
    eng.builtins["min"] = NativeV("min", mn)
    nat["numpy.argmin"] = NativeV("argmin", lambda e, a, kk: least(e, a[0].attrs["f"]) if isinstance(a[0], Rec) and a[0].kind == "hist" else W.no("argmin"))
    for nm, facts, p in returns(ctx, eng, "_get_best_merit_solution", lambda: eng.call(eng.getattr(W.me, "_get_best_merit_solution"), [])):
        x0, u, c = p.val
        if not all(isinstance(t, Rec) and t.kind == "saved" for t in (x0, u)):
            raise Unsupported("values %r" % (p.val,))
        w = x0.attrs["k"]
        ctx.fact(nm + "binary, then continuous values", x0.attrs["nm"] == "x0_saved" and u.attrs["nm"] == "u_saved")
        ctx.valid(nm + "of one iteration", facts, z3.And(u.attrs["k"] == w, real(c) == vals["cost_iterates"](w)))
        ctx.valid(nm + "no iteration has less merit", facts + [q >= 0, q < k], vals["merits"](w) <= vals["merits"](q))
    ctx.side(eng, prefix="_get_best_merit_solution: ")


VECS = ("x0", "u", "z", "y", "lambda_mult")
HISTS = ("cost_iterates", "residuals", "dual_residuals", "cons_r", "merits", "lambdas", "x0_saved", "u_saved", "z_saved", "y_saved")


class Run:
    """solve: the wiring of the functions above; vectors are opaque tokens, one arbitrary iteration."""

    def __init__(self, ctx):
        self.ctx = ctx
        W = self.W = World()
        eng = self.eng = W.eng
        H, oh, ov, nat = eng.rec_handlers, eng.obj_handlers, eng.overrides, eng.natives
        t5 = [I] * 5 + [R]
        self.f = {x: fn("new_" + x, *(t5 + [I])) for x in VECS}
        self.cost, self.cr = fn("cost_of", I, I, R), fn("violation_of", I, I, R)
        self.merit = fn("merit_of", R, R, R)
        self.res, self.dual = fn("primal_residual", I, I, I, R), fn("dual_residual", I, I, R, R)
        self.norm, self.newrho = fn("norm_of", I, R), fn("new_rho", R, R, R, R)
        self.sense = z3.Int("objective_sense")
        self.original, self.conv, self.minp = (Rec("program", {"which": x}, ("program", x)) for x in ("original", "converted", "minimisation"))
        self.i2b = Rec("int2bin", {}, ("int2bin",))
        H["program", "export_as_lp_string"] = H["subp", "export_as_lp_string"] = lambda e, a, k: lib.StrV([lib.UNKNOWN])
        for x in ("debug", "info", "warning"):
            H["log", x] = lambda e, a, k: None
        ov[PRE + "converters.integer_to_binary.IntegerToBinary"] = NType("IntegerToBinary", lambda e, a, k: self.i2b)
        H["int2bin", "convert"] = lambda e, a, k: self.conv if a[1] is self.original else W.no("another program is converted")
        OA = PRE + "algorithms.optimization_algorithm.OptimizationAlgorithm."
        ov[OA + "_verify_compatibility"] = NativeV("_verify_compatibility", lambda e, a, k: None)
        ov[OA + "_interpret"] = NativeV("_interpret", lambda e, a, k: Rec("result", dict(k)) if len(a) <= 1 else W.no("positional arguments of _interpret"))
        ov[AD + "ADMMState"] = NType("ADMMState", self.new_state)
        m = lambda nm, f: ov.__setitem__(CLS + "." + nm, NativeV(nm, f))
        m("_turn_to_minimization", lambda e, a, k: (self.minp, self.sense) if a[-1] is self.conv else W.no("another program is turned"))
        m("_get_variable_indices", self.indices)
        m("_warm_start", self.warm)
        m("_convert_problem_representation", self.represent)
        for j, (nm, x) in enumerate((("_create_step1_problem", "1"), ("_create_step2_problem", "2"), ("_create_step3_problem", "3"))):
            m(nm, lambda e, a, k, x=x: Rec("subp", {"which": x, "snap": self.snap(e)}))
        m("_update_x0", lambda e, a, k: self.f["x0"](*self.given(a, "1")))
        m("_update_x1", lambda e, a, k: (self.f["u"](*self.given(a, "2")), self.f["z"](*self.given(a, "2"))))
        m("_update_y", lambda e, a, k: self.f["y"](*self.given(a, "3")))
        m("_update_lambda_mult", lambda e, a, k: self.f["lambda_mult"](*self.snap(e)))
        m("_get_objective_value", lambda e, a, k: self.cost(*self.snap(e)[:2]))
        m("_get_constraint_residual", lambda e, a, k: self.cr(*self.snap(e)[:2]))
        m("_get_solution_residuals", self.residuals)
        m("_get_merit", lambda e, a, k: self.merit(real(a[-2]), real(a[-1])))
        m("_update_rho", self.update_rho)
        m("_get_best_merit_solution", self.best)
        m("_revert_solution_indexes", lambda e, a, k: Rec("point", {"b": a[-2], "c": a[-1]}))
        nat["numpy.linalg.norm"] = NativeV("norm", lambda e, a, k: self.norm(a[0]))
        nat["time.time"] = NativeV("time", lambda e, a, k: lib.skolem(e, "clock", R))
        oh["Hist", "append"] = self.append
        oh["Hist", "__len__"] = eng.obj_ops["Hist", "__len__"] = lambda e, a, k: e.cell(a[0]).fields["len"]
        eng.while_hooks.append(self.loop)
        self.made = self.looped = None
        eng.facts += [z3.Or(self.sense == 1, self.sense == -1)]
        self.muted = 0

    def st(self, e):
        return e.cell(self.made).fields

    def snap(self, e):
        f = self.st(e)
        for x in VECS:
            if not isz(f[x]):
                raise Unsupported("state %s" % x)
        return tuple(f[x] for x in VECS) + (real(f["rho"]),)

    def given(self, a, which):
        op = a[-1]
        if not (isinstance(op, Rec) and op.kind == "subp" and op.attrs["which"] == which):
            raise Unsupported("another sub-problem")
        return op.attrs["snap"]

    def new_state(self, e, a, k):
        vals = dict(zip(["op", "rho_initial"], a))
        vals.update(k)
        if vals.get("op") is not self.minp:
            raise Unsupported("state of another program")
        f = {x: z3.Int("initial_" + x) for x in VECS}
        f.update(op=vals["op"], rho=vals["rho_initial"], represented=False, binary_indices=None, continuous_indices=None, step1_absolute_indices=None, warm=False)
        for h in HISTS:
            f[h] = e.new(ObjV("Hist", {"len": iv(0), "last": None}))
        for x in tuple(f):
            e.obj_setters["AState", x] = lambda e, o, v, x=x: aprog.setf(e, o, x, v)
        self.made = e.new(ObjV("AState", f))
        return self.made

    def indices(self, e, a, k):
        if a[-2] is not self.minp:
            raise Unsupported("positions in another program")
        t = lib.enum_term(a[-1])
        t = lib.conc(t)
        if t not in (0, 1):
            raise Unsupported("type of variables")
        return (self.W.cts if t == 0 else self.W.bin).ref

    def warm(self, e, a, k):
        f = self.st(e)
        for x in ("x0", "u", "z"):
            aprog.setf(e, self.made, x, z3.Int("warm_" + x))

    def represent(self, e, a, k):
        f = self.st(e)
        if f["binary_indices"] is not self.W.bin.ref or f["continuous_indices"] is not self.W.cts.ref:
            e.obls.append(("the positions are known before the blocks are formed", list(e.pc), z3.BoolVal(False)))
        aprog.setf(e, self.made, "represented", True)
        aprog.setf(e, self.made, "step1_absolute_indices", self.W.absref)

    def residuals(self, e, a, k):
        e.obls.append(("residuals against the iteration before", list(e.pc), lib.num(a[-1]) == self.N))
        s = self.snap(e)
        return (self.res(s[0], s[2], s[3]), self.dual(s[2], self.N, s[5]))

    def update_rho(self, e, a, k):
        aprog.setf(e, self.made, "rho", self.newrho(real(self.st(e)["rho"]), real(a[-2]), real(a[-1])))

    def append(self, e, a, k):
        c = e.cell(a[0]).fields
        v = a[1]
        e.put(a[0], ObjV("Hist", {"len": z3.simplify(c["len"] + 1), "last": v}))

    def best(self, e, a, k):
        e.obls.append(("the best iterate is chosen after the iterations", list(e.pc), z3.BoolVal(self.looped is not None)))
        return (Rec("bestbin", {}, ("bestbin",)), Rec("bestcts", {}, ("bestcts",)), z3.Real("best_cost"))

    def loop(self, eng, s, sc):
        if self.looped is not None or self.made is None:
            raise Unsupported("another loop")
        if len(sc.frames) != 1 or s.orelse:
            raise Unsupported("loop")
        frame = sc.frames[0].id
        S0, pc0 = dict(eng.cells), list(eng.pc)
        local = S0[frame].fields
        st = S0[self.made.id].fields
        ctx = self.ctx
        nm = "solve loop: "
        N = self.N = z3.Int("iteration_number")
        ctx.fact(nm + "the problem is represented before it", st["represented"] is True)
        for h in HISTS:
            ctx.valid(nm + "no %s before it" % h, eng.facts + pc0, S0[st[h].id].fields["len"] == 0)
        stored = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        count = [x for x in stored if isinstance(local.get(x), int) and not isinstance(local.get(x), bool)]
        # an arbitrary iteration
        H = dict(S0)
        f = dict(local)
        for x in stored:
            v = local.get(x)
            f[x] = iv(local[x]) + N if x in count else z3.Real("head_" + x) if lib.is_num(v) else Poison("set in the loop")
        H[frame] = ObjV(S0[frame].cls, f)
        g = dict(st)
        for x in VECS:
            g[x] = z3.Int("head_" + x)
        g["rho"] = z3.Real("head_rho")
        H[self.made.id] = ObjV("AState", g)
        for h in HISTS:
            H[g[h].id] = ObjV("Hist", {"len": N, "last": None})
        eng.cells, eng.pc = dict(H), pc0 + [N >= 0]
        limit = eng.next

        def body():
            if not whiles.holds(eng, s, sc):
                raise Infeasible()
            try:
                eng.block(s.body, sc)
            except ContinueEx:
                pass
        try:
            ps = eng.explore(body)
        finally:
            eng.cells, eng.pc = dict(S0), pc0
        W = self.W
        three = W.params.attrs["three_block"]
        for u, p in enumerate(ps):
            if p.out != "normal":
                raise Unsupported("loop left from inside (%s)" % p.out)
            k = nm + "path %d: " % u
            facts = eng.facts + p.pc
            for cid, fl in loops._mods(H, p.cells, limit):
                if not (cid == frame and fl in stored or cid == self.made.id and fl in VECS + ("rho",) or any(cid == g[h].id for h in HISTS)):
                    raise Unsupported("the loop changes something else (%s)" % (fl,))
            e = p.cells[self.made.id].fields
            v = {x: g[x] for x in VECS}
            rho = g["rho"]
            now = lambda: [v[x] for x in VECS] + [rho]
            v["x0"] = z3.If(W.rel.size > 0, self.f["x0"](*now()), v["x0"])
            v["u"], v["z"] = self.f["u"](*now()), self.f["z"](*now())
            v["y"] = z3.If(z3.And(three, W.bin.size > 0), self.f["y"](*now()), v["y"])
            v["lambda_mult"] = self.f["lambda_mult"](*now())
            for x in VECS:
                ctx.valid(k + "%s comes from its own block, in turn" % x, facts, e[x] == v[x])
            cost, cr = self.cost(v["x0"], v["u"]), self.cr(v["x0"], v["u"])
            res, dual = self.res(v["x0"], v["z"], v["y"]), self.dual(v["z"], N, rho)
            want = {"cost_iterates": cost, "residuals": res, "dual_residuals": dual, "cons_r": cr, "merits": self.merit(cost, cr), "lambdas": self.norm(v["lambda_mult"]),
                    "x0_saved": v["x0"], "u_saved": v["u"], "z_saved": v["z"], "y_saved": v["y"]}
            for h, t in want.items():
                c = p.cells[g[h].id].fields
                ctx.valid(k + "one entry in %s per iteration" % h, facts, c["len"] == N + 1)
                if c["last"] is not None:
                    last = c["last"] if isz(c["last"]) else real(c["last"])
                    ctx.valid(k + "it is this iteration's (%s)" % h, facts, last == t)
            for x in count:
                ctx.valid(k + "%s counts the iterations" % x, facts, lib.num(p.cells[frame].fields[x]) == local[x] + N + 1)
        ctx.fact(nm + "some path", bool(ps))
        # after it
        E = dict(H)
        f2 = dict(f)
        E[frame] = ObjV(S0[frame].cls, f2)
        eng.cells, eng.pc = E, pc0 + [N >= 1]
        self.looped = True
        return True


def solve(ctx):
    Z = Run(ctx)
    eng = Z.eng

    def run():
        Z.looped = Z.made = None
        return eng.call(eng.getattr(Z.W.me, "solve"), [Z.original])
    for nm, facts, p in returns(ctx, eng, "solve", run):
        r = p.val
        if not (isinstance(r, Rec) and r.kind == "result"):
            raise Unsupported("result %r" % (r,))
        at = r.attrs
        x = at.get("x")
        ctx.fact(nm + "the best iterate, in the original order", isinstance(x, Rec) and x.kind == "point" and isinstance(x.attrs["b"], Rec) and x.attrs["b"].kind == "bestbin"
                 and isinstance(x.attrs["c"], Rec) and x.attrs["c"].kind == "bestcts")
        ctx.fact(nm + "interpreted by the converter that was used, in the original problem", at.get("converters") is Z.i2b and at.get("problem") is Z.original)
        ctx.fact(nm + "with the state", isinstance(at.get("state"), Ref) and p.cells[at["state"].id].cls == "AState")
    ctx.side(eng, prefix="solve: ")


# ------------------------------------------------------------------ programs that are changed entry by entry
class Mutable:
    """A program as functions of the position: types, bounds, objective coefficients; writes are recorded exactly."""
    PARTS = {"MVars": ("vt", "lb", "ub"), "MLin": ("f",), "MQuad": ("f",)}

    def __init__(self, W, tag="given"):
        self.W, self.tag = W, tag
        eng = self.eng = W.eng
        oh, ops, H = eng.obj_handlers, eng.obj_ops, eng.rec_handlers
        self.vt, self.lb, self.ub = fn("given_type", I, I), fn("given_lb", I, R), fn("given_ub", I, R)
        self.sense = z3.Int("given_sense")
        self.const = z3.Real("given_constant")
        i = z3.Int("i")
        eng.facts += [z3.Or(self.sense == 1, self.sense == -1)]
        w = lambda f: (lambda *x: f(*x))
        vs = eng.new(ObjV("MVars", {"vt": w(self.vt), "lb": w(self.lb), "ub": w(self.ub)}))
        lin, quad = eng.new(ObjV("MLin", {"f": w(W.L)})), eng.new(ObjV("MQuad", {"f": w(W.Q)}))
        obj = eng.new(ObjV("MObj", {"constant": self.const, "linear": lin, "quadratic": quad, "sense": SymEnum("ObjSense", self.sense)}))
        self.ref = eng.new(ObjV("MProg", {"vars": vs, "objective": obj, "removed": eng.new(ListV([]))}))
        self.start = dict(eng.cells)
        oh["MProg", "variables"] = (lambda e, o: e.cell(o).fields["vars"],)
        ops["MVars", "__getitem__"] = lambda e, a, k: e.new(ObjV("MVar", {"of": a[0], "k": lib.num(a[1]), "name": V(lib.num(a[1]))}))
        oh["MProg", "get_variable"] = lambda e, a, k: e.new(ObjV("MVar", {"of": e.cell(a[0]).fields["vars"], "k": lib.num(a[1]), "name": V(lib.num(a[1]))}))
        for nm, f in (("vartype", "vt"), ("lowerbound", "lb"), ("upperbound", "ub")):
            eng.obj_setters["MVar", nm] = lambda e, o, v, f=f: self.write(e, e.cell(o).fields["of"], f, (e.cell(o).fields["k"],), lib.enum_term(v) if f == "vt" else real(v))
        ops["MLin", "__setitem__"] = lambda e, a, k: self.write(e, a[0], "f", (lib.num(a[1]),), real(a[2]))
        ops["MQuad", "__setitem__"] = self.set_quad
        ops["MLin", "__getitem__"] = lambda e, a, k: e.cell(a[0]).fields["f"](lib.num(a[1]))
        ops["MQuad", "__getitem__"] = lambda e, a, k: e.cell(a[0]).fields["f"](*self.key(a[1]))
        oh["MLin", "coefficients"] = (lambda e, o: arr((W.n,), e.cell(o).fields["f"]),)
        oh["MQuad", "coefficients"] = (lambda e, o: arr((W.n, W.n), e.cell(o).fields["f"]),)
        oh["MLin", "to_array"] = lambda e, a, k: arr((W.n,), e.cell(a[0]).fields["f"])
        oh["MProg", "remove_linear_constraint"] = lambda e, a, k: lib.append(e, e.cell(a[0]).fields["removed"], lib.as_name(e, a[1]))
        for nm in ("constant", "sense"):
            eng.obj_setters["MObj", nm] = lambda e, o, v, nm=nm: aprog.setf(e, o, nm, v)
        eng.obj_setters["MObj", "linear"] = lambda e, o, v: aprog.setf(e, o, "linear", e.new(ObjV("MLin", {"f": as_arr(e, v)[1]})))
        eng.obj_setters["MObj", "quadratic"] = lambda e, o, v: aprog.setf(e, o, "quadratic", e.new(ObjV("MQuad", {"f": as_arr(e, v)[1]})))
        eng.copiers["MProg"] = self.copy
        eng.loop_hooks.append(self.pointwise)

    def key(self, ij):
        i, j = (lib.num(x) for x in ij)
        return z3.If(i <= j, i, j), z3.If(i <= j, j, i)

    def set_quad(self, e, a, k):
        if not isinstance(a[1], tuple) or len(a[1]) != 2:
            raise Unsupported("entry of a quadratic expression")
        self.write(e, a[0], "f", self.key(a[1]), real(a[2]))

    def write(self, e, ref, part, key, val):
        c = e.cell(ref)
        old = c.fields[part]

        def f(*ix):
            return z3.If(z3.And(*[x == y for x, y in zip(ix, key)]), val, old(*ix))
        e.put(ref, ObjV(c.cls, dict(c.fields, **{part: f})))

    def copy(self, e, r, memo):
        f = e.cell(r).fields
        dup = lambda x: e.new(e.cell(x))
        o = e.cell(f["objective"])
        obj = e.new(ObjV("MObj", dict(o.fields, linear=dup(o.fields["linear"]), quadratic=dup(o.fields["quadratic"]))))
        return e.new(ObjV("MProg", dict(f, vars=dup(f["vars"]), objective=obj, removed=dup(f["removed"]))))

    def untouched(self, cells):
        ids = [self.ref.id] + [x.id for x in self.start[self.ref.id].fields.values()]
        o = self.start[self.start[self.ref.id].fields["objective"].id].fields
        ids += [o["linear"].id, o["quadratic"].id]
        return all(cells[i] is self.start[i] for i in ids)

    def pointwise(self, eng, seq, assign, body, sc):
        """A loop that overwrites entries with values not depending on entries: each entry gets the value of the last iteration that writes it."""
        if len(seq.segs) != 1 or len(seq.segs[0].binders) != 1 or not z3.is_true(seq.segs[0].guard):
            return False
        sg = seq.segs[0]
        new_var = freshi()
        b0 = sg.binders[0]
        sg = Seg([Binder(new_var, b0.lo, b0.hi)], sg.guard, vsub(sg.val, [(b0.var, new_var)]))       # nested loops may run over the same list
        b = sg.binders[0]
        if not any(isinstance(c, ObjV) and c.cls in self.PARTS for c in eng.cells.values()):
            return False
        pre, pc0, limit, n_obl = dict(eng.cells), list(eng.pc), eng.next, len(eng.obls)
        ph, start = {}, dict(pre)
        for cid, c in pre.items():
            if isinstance(c, ObjV) and c.cls in self.PARTS:
                fl = dict(c.fields)
                for part in self.PARTS[c.cls]:
                    args = [I] * (2 if c.cls == "MQuad" else 1)
                    F = z3.Function("before_%d_%s_%d" % (cid, part, next(COUNT)), *(args + [I if part == "vt" else R]))
                    ph[cid, part] = (F, len(args))
                    fl[part] = (lambda F: lambda *x: F(*x))(F)
                start[cid] = ObjV(c.cls, fl)
        frames = {x.id for x in sc.frames}

        def one():
            assign(lib.materialise(eng, sg.val))
            body()
        eng.cells, eng.pc = dict(start), pc0 + [b.range()]
        eng.binders.append(b.var)
        try:
            ps = eng.explore(one)
        except Unsupported:
            eng.cells, eng.pc = pre, pc0
            del eng.obls[n_obl:]
            return False
        finally:
            eng.binders.pop()
            eng.cells, eng.pc = pre, pc0
        mods = {u for p in ps for u in loops._mods(start, p.cells, limit)}
        if not any(u in ph for u in mods):
            del eng.obls[n_obl:]
            return False            # another kind of loop
        if any(p.out != "normal" for p in ps):
            raise Unsupported("loop over entries is left")
        for cid, part in mods:
            if (cid, part) not in ph and cid not in frames:
                raise Unsupported("loop over entries changes something else")
        new = dict(pre)
        for (cid, part) in mods:
            if cid in frames and (cid, part) not in ph:
                new[cid] = ObjV(new[cid].cls, dict(new[cid].fields, **{part: Poison("last value in a loop over entries")}))
                continue
            F, ar = ph[cid, part]
            ix = [freshi() for _ in range(ar)]
            t = None
            for p in ps:
                x = p.cells[cid].fields[part](*ix)
                t = x if t is None else z3.If(band(*p.pc), x, t)
            w, v = split(z3.simplify(t), F(*ix))
            for G, _ in ph.values():
                if uses(w, G) or uses(v, G):
                    raise Unsupported("an entry depends on another one")
            cands = None
            rng = lambda q: z3.And(b.lo <= q, q < b.hi)
            for rank in (self.W.bin.rank, self.W.cts.rank, self.W.rel.rank, lambda q: q):
                cs = [rank(q) for q in ix]
                if implied(eng, z3.Implies(z3.And(b.range(), w), z3.Or(*[b.var == c for c in cs]))):
                    cands = rank
                    break
            if cands is None:
                raise Unsupported("which iterations write an entry (%s: %s)" % (part, str(z3.simplify(w))[:600]))
            old = pre[cid].fields[part]

            def g(*at, ix=ix, w=w, v=v, old=old, rank=cands, rng=rng):
                cs = [rank(q) for q in at]
                hit = [z3.And(rng(c), subst(w, list(zip(ix, at)) + [(b.var, c)])) for c in cs]
                val = [subst(v, list(zip(ix, at)) + [(b.var, c)]) for c in cs]
                if len(cs) == 1:
                    return z3.If(hit[0], val[0], old(*at))
                return z3.If(z3.And(hit[0], z3.Or(z3.Not(hit[1]), cs[0] >= cs[1])), val[0], z3.If(hit[1], val[1], old(*at)))
            new[cid] = ObjV(new[cid].cls, dict(new[cid].fields, **{part: g}))
        eng.cells = new
        return True


import itertools
COUNT = itertools.count()


def implied(eng, goal):
    return check(eng.facts + eng.pc + [z3.Not(goal)], 5000)[0] == z3.unsat


def split(t, leaf):
    """(condition under which t is not the entry as it was, value then)"""
    if t.eq(leaf):
        return z3.BoolVal(False), t if False else (z3.RealVal(0) if t.sort() == R else iv(0))
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, x, y = t.children()
        (wx, vx), (wy, vy) = split(x, leaf), split(y, leaf)
        return z3.simplify(z3.If(c, wx, wy)), z3.If(c, vx, vy)
    return z3.BoolVal(True), t


def uses(t, F):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(F):
            return True
        todo += x.children()
    return False


def mparts(eng, ref):
    f = eng.cell(ref).fields
    v, o = eng.cell(f["vars"]).fields, eng.cell(f["objective"]).fields
    return {"vt": v["vt"], "lb": v["lb"], "ub": v["ub"], "lin": eng.cell(o["linear"]).fields["f"], "quad": eng.cell(o["quadratic"]).fields["f"],
            "constant": real(o["constant"]), "sense": lib.enum_term(o["sense"]), "removed": eng.cell(f["removed"])}


def turn(ctx):
    W = World()
    eng = W.eng
    M = Mutable(W)
    i, j = z3.Ints("any_i any_j")
    rng = [i >= 0, i < W.n, j >= 0, j < W.n]
    done = 0
    for nm, facts, p in returns(ctx, eng, "_turn_to_minimization", lambda: eng.call(eng.getattr(eng.raw_class(CLS), "_turn_to_minimization"), [M.ref])):
        with cells_of(eng, p):
            prog, sense = p.val
            q = mparts(eng, prog)
            ctx.valid(nm + "the sense of the problem", facts, lib.num(sense) == M.sense)
            ctx.valid(nm + "it is minimised", facts, q["sense"] == 1)
            sg = z3.If(M.sense == 1, z3.RealVal(1), z3.RealVal(-1))
            ctx.valid(nm + "the objective, sign-adjusted", facts + rng, z3.And(q["constant"] == sg * M.const, q["lin"](i) == sg * W.L(i), q["quad"](i, j) == sg * W.Q(i, j)))
            ctx.valid(nm + "variables as they were", facts + rng, z3.And(q["vt"](i) == M.vt(i), q["lb"](i) == M.lb(i), q["ub"](i) == M.ub(i)))
            ctx.fact(nm + "constraints as they were", not q["removed"].segs)
            ctx.fact(nm + "the given problem is left as it was", M.untouched(p.cells))
    ctx.side(eng, prefix="_turn_to_minimization: ")


def step2(ctx):
    W = World()
    eng, v, rho = W.eng, W.vecs, W.real["rho"]
    M = Mutable(W)
    C = Cons(W, "binary_equality")
    aprog.setf(eng, W.state, "op", M.ref)
    aprog.setf(eng, W.state, "binary_equality_constraints", C.ref)
    i, j = z3.Ints("any_i any_j")
    rng = [i >= 0, j < W.n, i <= j]
    for nm, facts, p in returns(ctx, eng, "_create_step2_problem", lambda: eng.call(eng.getattr(W.me, "_create_step2_problem"), [])):
        with cells_of(eng, p):
            q = mparts(eng, p.val)
            B, k = W.bin.member, W.bin.rank
            ctx.valid(nm + "binary variables become continuous, others keep their type", facts + rng, q["vt"](i) == z3.If(B(i), iv(0), M.vt(i)))
            ctx.valid(nm + "binary variables are relaxed to [0, 1], others keep their bounds", facts + rng,
                      z3.And(q["lb"](i) == z3.If(B(i), z3.RealVal(0), M.lb(i)), q["ub"](i) == z3.If(B(i), z3.RealVal(1), M.ub(i))))
            ctx.valid(nm + "linear part: multipliers and penalty on the binary variables, the objective's on the others", facts + rng,
                      q["lin"](i) == z3.If(B(i), -v["lambda_mult"](k(i)) - rho * (v["x0"](k(i)) - v["y"](k(i))), W.L(i)))
            ctx.valid(nm + "quadratic part: the penalty on the binary variables, the objective's on the others", facts + rng,
                      q["quad"](i, j) == z3.If(z3.And(B(i), B(j)), z3.If(i == j, rho / 2, z3.RealVal(0)), W.Q(i, j)))
            ctx.valid(nm + "constant and sense as in the problem", facts, z3.And(q["constant"] == M.const, q["sense"] == M.sense))
            lst = q["removed"]
            if len(lst.segs) != 1 or len(lst.segs[0].binders) != 1:
                raise Unsupported("removed constraints")
            s = lst.segs[0]
            b = s.binders[0]
            ctx.valid(nm + "exactly the equalities over binary variables are left to the first block", facts + [b.range()],
                      z3.And(b.lo == 0, b.hi == C.m, s.guard, s.val == C.name(b.var)))
            ctx.fact(nm + "the problem is left as it was", M.untouched(p.cells))
    ctx.side(eng, prefix="_create_step2_problem: ")


def represent(ctx):
    """_convert_problem_representation: which constraint goes where; the blocks handed to the sub-problems."""
    W = World()
    eng = W.eng
    H, nat = eng.rec_handlers, eng.natives
    with_arrays(W)
    LC, QC = Cons(W, "linear"), Cons(W, "quadraticc")
    allbin = fn("only_binary_variables", I, B)
    H["op", "linear_constraints"], H["op", "quadratic_constraints"] = (lambda e, o: LC.ref,), (lambda e, o: QC.ref,)
    H["gconlin", "to_dict"] = lambda e, a, k: Rec("gdict", {"of": a[0].attrs["of"], "c": a[0].attrs["c"]})
    H["gdict", "keys"] = H["gdict", "__iter__"] = lambda e, a, k: Rec("gkeys", a[0].attrs)
    b = eng.cell(LC.ref).segs[0]
    for C in (LC, QC):
        (s,) = eng.cell(C.ref).segs
        at = dict(s.val.attrs)
        at["linear"] = Rec("gconlin", dict(at["linear"].attrs, of=C.nm, c=s.binders[0].var))
        eng.put(C.ref, ListV([Seg(s.binders, s.guard, Rec("gcon", at, s.val.ident))]))
    def mkset(e, a, k):
        if len(a) == 1 and isinstance(a[0], Rec) and a[0].kind in ("gkeys", "gdict"):
            return Rec("posset", {"c": a[0].attrs["c"], "of": a[0].attrs["of"]})
        if len(a) == 1 and isinstance(a[0], Ref) and a[0].id == W.bin.ref.id:
            return Rec("posset", {"bin": True})
        return e.call(old, a, k)
    old = eng.builtins["set"]
    eng.builtins["set"] = eng.builtins["frozenset"] = NativeV("set", mkset)

    def subset(e, a, k):
        x, y = a[0], a[1]
        if x.kind != "posset" or "c" not in x.attrs or not (isinstance(y, Rec) and y.kind == "posset" and y.attrs.get("bin")) or x.attrs["of"] != LC.nm:
            raise Unsupported("subset")
        return allbin(x.attrs["c"])
    H["posset", "issubset"] = subset
    for x in ("equality_constraints", "inequality_constraints", "binary_equality_constraints"):
        aprog.setf(eng, W.state, x, eng.new(ListV([])))
    ab, re = eng.new(ListV(list(eng.cell(W.absref).segs))), W.rel.ref
    fresh = {}
    for x in ("step1_absolute_indices", "step1_relative_indices", "q0", "c0", "q1", "c1", "a0", "b0"):
        aprog.setf(eng, W.state, x, None)
        eng.obj_setters["AState", x] = lambda e, o, v, x=x: aprog.setf(e, o, x, v)
    m = lambda nm, f: eng.overrides.__setitem__(CLS + "." + nm, NativeV(nm, f))
    m("_get_step1_indices", lambda e, a, k: (W.absref, W.rel.ref))
    m("_get_q", lambda e, a, k: Rec("q_of", {"ix": a[-1].id}))

    def a0b0(e, a, k):
        st = e.cell(W.state).fields
        e.obls.append(("the first block is known before its equalities are formed", list(e.pc), z3.BoolVal(isinstance(st["step1_absolute_indices"], Ref) and st["step1_absolute_indices"].id == W.absref.id)))
        return (Rec("A0", {}), Rec("B0", {}))
    m("_get_a0_b0", a0b0)
    i = z3.Int("any_i")
    for nm, facts, p in returns(ctx, eng, "_convert_problem_representation", lambda: eng.call(eng.getattr(W.me, "_convert_problem_representation"), [])):
        with cells_of(eng, p):
            f = eng.cell(W.state).fields
            lists = (("equality_constraints", ((LC, lambda c: LC.sense(c) == 2), (QC, lambda c: QC.sense(c) == 2))),
                     ("inequality_constraints", ((LC, lambda c: LC.sense(c) != 2), (QC, lambda c: QC.sense(c) != 2))),
                     ("binary_equality_constraints", ((LC, lambda c: z3.And(LC.sense(c) == 2, allbin(c))),)))
            for field, parts in lists:
                segs = eng.cell(f[field]).segs
                if any(len(s.binders) != 1 or not isinstance(s.val, Rec) or s.val.kind != "gcon" for s in segs):
                    raise Unsupported("list of constraints")
                ctx.fact(nm + field + ": nothing else", all(s.val.attrs["of"] in [C.nm for C, _ in parts] for s in segs))
                for C, want in parts:
                    mine = [s for s in segs if s.val.attrs["of"] == C.nm]
                    gs = []
                    for s in mine:
                        bb = s.binders[0]
                        ctx.valid(nm + "%s (%s): all, each itself" % (field, C.nm), facts + [bb.range()], z3.And(bb.lo == 0, bb.hi == C.m, s.val.attrs["name"] == C.name(bb.var)))
                        gs.append(subst(s.guard, [(bb.var, i)]))
                    hyp = facts + [i >= 0, i < C.m]
                    ctx.valid(nm + "%s (%s): exactly those" % (field, C.nm), hyp, want(i) == bor(*gs))
                    for u, g in enumerate(gs):
                        ctx.valid(nm + "%s (%s): once" % (field, C.nm), hyp + [g], z3.And(*[z3.Not(h) for h in gs[:u]]))
            isref = lambda v, r: isinstance(v, Ref) and v.id == r.id
            ctx.fact(nm + "first block's positions", isref(f["step1_absolute_indices"], W.absref) and isref(f["step1_relative_indices"], W.rel.ref))
            isq = lambda v, r: isinstance(v, Rec) and v.kind == "q_of" and v.attrs["ix"] == r.id
            ctx.fact(nm + "quadratic blocks", isq(f["q0"], W.absref) and isq(f["q1"], W.cts.ref))
            ctx.fact(nm + "equality block", all(isinstance(f[x], Rec) and f[x].kind == x.upper() for x in ("a0", "b0")))
            for x, size, at in (("c0", W.rel.size, lambda k: W.bin.at(W.rel.at(k))), ("c1", W.cts.size, W.cts.at)):
                (n,), g = as_arr(eng, f[x])
                ctx.valid(nm + "linear block " + x, facts, n == size)
                ctx.valid(nm + "linear block %s: entries" % x, facts + [i >= 0, i < size], g(i) == W.L(at(i)))
    ctx.side(eng, prefix="_convert_problem_representation: ")


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("the two sub-solvers return arbitrary points of the right length; nothing is assumed of their quality",
               "the lists of binary and continuous positions are increasing and split the positions between them (contract of _get_variable_indices; integer variables are converted before, C02)",
               "the positions of the first block are an increasing list of binary positions (contract of _get_step1_indices, which is bounded)",
               "in solve, the other methods stand for their contracts, and at least one iteration is run (maxiter >= 1, tol below the initial residual, max_time > 0)",
               "converters and reading back the result: by contract (C01 to C04, C12)",
               "numpy arithmetic on vectors and matrices is exact, and numpy.linalg.norm is the Euclidean norm")
    ctx.contract("ADMMOptimizer._get_variable_indices", indices)
    ctx.contract("ADMMOptimizer._get_q", blocks)
    ctx.contract("ADMMOptimizer._create_step1_problem", step1)
    ctx.contract("ADMMOptimizer._create_step2_problem", step2)
    ctx.contract("ADMMOptimizer._create_step3_problem", step3)
    ctx.contract("ADMMOptimizer updates and positions", updates)
    ctx.contract("ADMMOptimizer._get_a0_b0", equalities)
    ctx.contract("ADMMOptimizer measures", measures)
    ctx.contract("ADMMOptimizer._get_solution_residuals", residuals)
    ctx.contract("ADMMOptimizer._get_best_merit_solution", best)
    ctx.contract("ADMMOptimizer.solve", solve)
    ctx.contract("ADMMOptimizer._turn_to_minimization", turn)
    ctx.contract("ADMMOptimizer._convert_problem_representation", represent)
    ctx.beyond("ADMMOptimizer._get_step1_indices", "nested scans with an early exit over a sorted list: runtime contracts only")
    ctx.beyond("ADMMOptimizer._update_rho, _warm_start", "heuristics the property does not constrain: runtime contracts only")
