"""C16: routing applications."""
from .apps import *


def nxt(n, k):
    return z3.If(k + 1 == n, z3.IntVal(0), k + 1)


def square(g, f):
    """Sum of f(i, j) over ordered pairs of different nodes."""
    i, j = Binder(freshi(), z3.IntVal(0), g.n), Binder(freshi(), z3.IntVal(0), g.n)
    return mk_sum([i, j], i.var != j.var, f(i.var, j.var))


def line(g, f, guard=None):
    i = Binder(freshi(), z3.IntVal(0), g.n)
    return mk_sum([i], guard(i.var) if guard else TRUE, f(i.var))


def tsp_objective(g, x):
    i, j, k = (Binder(freshi(), z3.IntVal(0), g.n) for _ in range(3))
    return mk_sum([i, j, k], i.var != j.var, g.W(i.var, j.var) * x(i.var, k.var) * x(j.var, nxt(g.n, k.var)))


def tsp_cons(g, x):
    return [("each node once", [g.n], lambda i: TRUE, lambda i: ("sum", line(g, lambda k: x(i, k)) - 1, "==")),
            ("one node per step", [g.n], lambda k: TRUE, lambda k: ("sum", line(g, lambda i: x(i, k)) - 1, "=="))]


def run_app(ctx, name, eng, g, make, guard=None):
    def go():
        return eng.call(eng.getattr(make(eng, g), "to_quadratic_program"), [])
    paths = eng.explore(go)
    ctx.vac["paths"] += len(paths)
    ctx.fact("%s has a path" % name, bool(paths))
    for k, p in enumerate(paths):
        nm = "%s path %d: " % (name, k)
        if p.out == "raise":
            ctx.fact(nm + "does not raise", False, str(p.val))
            continue
        m = imported(ctx, nm, p)
        v = m and binary_vars(ctx, nm, eng.facts + p.pc, m, [g.n, g.n], guard)
        if v:
            yield nm, eng.facts + p.pc, m, v


def tsp_program(ctx):
    eng = setup_app()
    g = graph(eng, True)
    for nm, facts, m, v in run_app(ctx, "Tsp", eng, g, lambda e, g: e.call(e.resolve(APP + "tsp.Tsp"), [g.rec()])):
        x = lambda i, k: pt(v(i, k))
        objective(ctx, nm, facts + BITS, m, 1, tsp_objective(g, x))
        family(ctx, nm, facts, m["cons"].segs, tsp_cons(g, x))
    ctx.side(eng, prefix="Tsp: ")
    return eng


def tsp_length(ctx):
    """At the point of a permutation t (node t(k) at step k) the objective is the length of the closed tour."""
    t = z3.Function("tour", I, I)

    def point(nm):
        if nm.decl().name() != "fmt":
            raise Unsupported("variable name %s" % nm)
        return z3.If(nm.arg(1) == t(nm.arg(2)), z3.RealVal(1), z3.RealVal(0))
    eng = setup_app(point)
    g = graph(eng, True)
    permutation(eng, g.n)
    eng.facts.append(g.n >= 2)
    for nm, facts, m, v in run_app(ctx, "Tsp at a permutation", eng, g, lambda e, g: e.call(e.resolve(APP + "tsp.Tsp"), [g.rec()])):
        length = line(g, lambda k: g.W(t(k), t(nxt(g.n, k))))
        objective(ctx, nm, facts, m, 1, length)
    ctx.side(eng, prefix="Tsp at a permutation: ")
    return eng


def split_index(t, n):
    """(i, k) with t = i * n + k, read off the text of the index."""
    t = z3.simplify(t, som=True)
    parts = list(t.children()) if z3.is_add(t) else [t]
    hi, lo = [], []
    for p in parts:
        if p.eq(n):
            hi.append(z3.IntVal(1))
        elif z3.is_mul(p) and any(c.eq(n) for c in p.children()):
            cs = list(p.children())
            cs.remove(next(c for c in cs if c.eq(n)))
            hi.append(z3.Product(cs) if len(cs) > 1 else cs[0])
        else:
            lo.append(p)
    return z3.simplify(z3.Sum(hi)) if hi else z3.IntVal(0), z3.simplify(z3.Sum(lo)) if lo else z3.IntVal(0)


def square_vec(eng, n, f):
    """A vector of length n * n with entry f(i, k) at i * n + k."""
    def get(e, a, k):
        i, s = split_index(lib.num(a[1]), n)
        if not e.entailed(z3.And(i >= 0, i < n, s >= 0, s < n)):
            raise Unsupported("index of a matrix stored by rows: %s" % a[1])
        return f(i, s)
    eng.rec_handlers["sqvec", "__getitem__"] = get
    sq = z3.simplify(n * n)
    eng.rec_handlers["sqvec", "__len__"] = lambda e, a, k: sq

    def sqrt(e, a, k):
        t = lib.num(a[0])
        if z3.simplify(t).eq(sq) or z3.simplify(t).eq(z3.simplify(z3.ToReal(sq))):
            return z3.ToReal(n)
        raise Unsupported("square root")
    eng.natives["numpy.sqrt"] = eng.natives["math.sqrt"] = NativeV("sqrt", sqrt)
    eng.natives["math.isqrt"] = NativeV("isqrt", lambda e, a, k: z3.ToInt(sqrt(e, a, k)))
    old = eng.rec_isinstance
    eng.rec_isinstance = lambda v, t: lib.type_name(t) == "ndarray" if v.kind == "sqvec" else old(v, t)
    return Rec("sqvec", {})


def permutation(eng, n):
    t = z3.Function("tour", I, I)
    a, b = z3.Ints("qa qb")
    eng.facts += [n >= 1, z3.ForAll([a], z3.And(t(a) >= 0, t(a) < n), patterns=[t(a)]),
                  z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, b >= 0, a < n, b < n, t(a) == t(b)), a == b), patterns=[z3.MultiPattern(t(a), t(b))])]
    return t


def tsp_interpret(ctx):
    for form in ("vector", "result object"):
        eng = setup_app()
        g = graph(eng, True)
        t = permutation(eng, g.n)
        v = square_vec(eng, g.n, lambda i, k: z3.If(i == t(k), z3.RealVal(1), z3.RealVal(0)))
        x = v if form == "vector" else Rec("optres", {"x": v})
        paths = eng.explore(lambda: eng.call(eng.getattr(eng.call(eng.resolve(APP + "tsp.Tsp"), [g.rec()]), "interpret"), [x]))
        ctx.fact("Tsp.interpret[%s] has a path" % form, bool(paths))
        for k, p in enumerate(paths):
            nm = "Tsp.interpret[%s] path %d: " % (form, k)
            if p.out == "raise":
                ctx.fact(nm + "does not raise", False, str(p.val))
                continue
            tour_list(ctx, nm, eng.facts + p.pc, p, g.n, t)
        ctx.side(eng, prefix="Tsp.interpret[%s]: " % form)
    return eng


def sums_in(t, out=None):
    out = {} if out is None else out
    if z3.is_app(t):
        if t.decl().name() in SUMS:
            out[t.sexpr()] = t
        for c in t.children():
            sums_in(c, out)
    return out


def tour_list(ctx, nm, facts, p, n, t):
    """The list is [t(0), .., t(n-1)]."""
    c = p.cells[p.val.id] if isinstance(p.val, Ref) else None
    if not isinstance(c, ListV) or c.unordered is True:
        raise Unsupported("form of the returned tour")
    left = []
    for s in c.segs:
        hyp = facts + [b.range() for b in s.binders]
        guard = s.guard
        for q in sums_in(guard).values():
            if all(occurs(b.var, q) for b in s.binders[:1]) and ctx.eq(nm + "one node at each step", facts + [s.binders[0].range()], real(q), z3.RealVal(1)):
                guard = z3.substitute(guard, (q, z3.IntVal(1) if q.sort() == I else z3.RealVal(1)))
        guard = z3.simplify(guard)
        if not z3.is_false(guard):
            left.append((s, guard))
    if len(left) != 1:
        raise Unsupported("form of the returned tour: %s" % left)
    s, guard = left[0]
    k = s.binders[0]
    ctx.valid(nm + "all steps in order", facts, z3.And(k.lo == 0, k.hi == n))
    if not ctx.fact(nm + "nodes are numbers", is_num(s.val), str(s.val)):
        return
    hyp = facts + [k.range()]
    if len(s.binders) == 2:
        b = s.binders[1]
        ctx.valid(nm + "the entry of a step is its node", hyp + [b.range(), guard], z3.And(b.var == t(k.var), real(s.val) == z3.ToReal(t(k.var))))
        ctx.valid(nm + "every step has an entry", hyp, z3.substitute(z3.And(b.range(), guard), (b.var, t(k.var))))
    else:
        if len(s.binders) != 1:
            raise Unsupported("form of the returned tour")
        ctx.valid(nm + "the entry of a step is its node", hyp, z3.And(guard, real(s.val) == z3.ToReal(t(k.var))))


def tsp_value(ctx):
    eng = setup_app()
    n = z3.Int("steps")
    z, A = z3.Function("stop", I, I), z3.Function("dist", I, I, R)
    eng.facts.append(n >= 1)
    eng.rec_handlers["matrix", "__getitem__"] = lambda e, a, k: A(lib.num(a[1][0]), lib.num(a[1][1]))
    paths = eng.explore(lambda: eng.call(eng.getattr(eng.resolve(APP + "tsp.Tsp"), "tsp_value"), [vec(z, n), Rec("matrix", {})]))
    ctx.fact("Tsp.tsp_value has a path", bool(paths))
    for k, p in enumerate(paths):
        nm = "Tsp.tsp_value path %d: " % k
        if p.out == "raise" or not is_num(p.val):
            ctx.fact(nm + "returns a number", False, str(p.val))
            continue
        b = Binder(freshi(), z3.IntVal(0), n - 1)
        spec = mk_sum([b], TRUE, A(z(b.var), z(b.var + 1))) + A(z(n - 1), z(z3.IntVal(0)))
        ctx.eq(nm + "length of the closed tour", eng.facts + p.pc, real(p.val), spec)
    ctx.side(eng, prefix="Tsp.tsp_value: ")
    return eng


class Subsets:
    """itertools.combinations: the subsets of the listed nodes, by size r and number c; entry e of a subset is node(r, c, e)."""

    def __init__(self, eng, g, depot):
        self.count, self.node = z3.Function("subsets", I, I), z3.Function("subset_node", I, I, I, I)
        r, c, e = z3.Ints("qr qc qe")
        t = self.node(r, c, e)
        eng.facts += [z3.ForAll([r], self.count(r) >= 0, patterns=[self.count(r)]),
                      z3.ForAll([r, c, e], z3.And(t >= 0, t < g.n, t != depot), patterns=[t])]
        e2 = z3.Int("qf")
        t2 = self.node(r, c, e2)
        eng.facts.append(z3.ForAll([r, c, e, e2], z3.Implies(z3.And(e >= 0, e2 >= 0, e < r, e2 < r, t == t2), e == e2), patterns=[z3.MultiPattern(t, t2)]))

        def combinations(en, a, k):
            cell = en.cell(a[0]) if isinstance(a[0], Ref) else None
            segs = [s for s in cell.segs if not z3.is_false(z3.simplify(s.guard))] if isinstance(cell, ListV) and cell.base is None else []
            if len(a) != 2 or len(segs) != 1 or len(segs[0].binders) != 1:
                raise Unsupported("itertools.combinations of %r" % (cell,))
            s, x = segs[0], segs[0].binders[0]
            en.obls.append(("subsets are taken of the nodes other than the depot", list(en.pc) + [x.range()],
                            z3.And(x.lo == 0, x.hi == g.n, s.guard == (x.var != depot), lib.num(s.val) == x.var)))
            size = lib.num(a[1])
            b = Binder(freshi(), z3.IntVal(0), self.count(size))
            return SeqV([Seg([b], TRUE, Rec("comb", {"r": size, "c": b.var}))])

        def comb_iter(en, a, k):
            d = a[0].attrs
            b = Binder(freshi(), z3.IntVal(0), d["r"])
            return SeqV([Seg([b], TRUE, self.node(d["r"], d["c"], b.var))])
        eng.natives["itertools.combinations"] = NativeV("combinations", combinations)
        eng.rec_handlers["comb", "__iter__"] = comb_iter
        eng.rec_handlers["comb", "__len__"] = lambda en, a, k: a[0].attrs["r"]


def vrp_cons(g, x, d, v, S):
    inn = lambda j: line(g, lambda i: x(i, j), lambda i: i != j)
    out = lambda i: line(g, lambda j: x(i, j), lambda j: i != j)

    def inside(r, c):
        a, b = Binder(freshi(), z3.IntVal(0), r), Binder(freshi(), z3.IntVal(0), r)
        p, q = S.node(r, c, a.var), S.node(r, c, b.var)
        return mk_sum([a, b], p != q, x(p, q))
    sizes = (z3.IntVal(2), g.n)
    return [("leave each customer once", [g.n], lambda i: i != d, lambda i: ("sum", out(i) - 1, "==")),
            ("enter each customer once", [g.n], lambda j: j != d, lambda j: ("sum", inn(j) - 1, "==")),
            ("vehicles return", [], lambda: TRUE, lambda: ("sum", inn(d) - z3.ToReal(v), "==")),
            ("vehicles leave", [], lambda: TRUE, lambda: ("sum", out(d) - z3.ToReal(v), "==")),
            ("no sub-tours", [sizes, lambda r: S.count(r)], lambda r, c: TRUE, lambda r, c: ("sum", inside(r, c) - z3.ToReal(r) + 1, "<="))]


def vrp_program(setters):
    def fn(ctx):
        nm0 = "VehicleRouting" + ("[setters]" if setters else "")
        eng = setup_app()
        g = graph(eng, True)
        d, v = z3.Ints("depot vehicles")
        eng.facts += [d >= 0, d < g.n]
        S = Subsets(eng, g, d)

        def make(e, g):
            c = e.resolve(APP + "vehicle_routing.VehicleRouting")
            if not setters:
                return e.call(c, [g.rec(), v, d])
            app = e.call(c, [g.rec()])
            e.setattr(app, "num_vehicles", v)
            e.setattr(app, "depot", d)
            return app
        diff = lambda i, j: i != j
        for nm, facts, m, name in run_app(ctx, nm0, eng, g, make, diff):
            x = lambda i, j: pt(name(i, j))
            objective(ctx, nm, facts + BITS, m, 1, square(g, lambda i, j: g.W(i, j) * x(i, j)))
            family(ctx, nm, facts, m["cons"].segs, vrp_cons(g, x, d, v, S))
        ctx.side(eng, prefix=nm0 + ": ")
        return eng
    return fn


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("docplex: Model.sum, arithmetic and comparison of expressions mean what they say; from_docplex imports the model faithfully (C11)",
               "nodes are 0..n-1; graph.edges[i, j]['weight'] is symmetric; values given to interpret are 0 or 1",
               "a 0/1 matrix is a permutation matrix exactly if its rows and columns sum to 1")
    ctx.assume("itertools.combinations lists each subset of the given size once; np.sqrt of a square is exact")
    ctx.beyond("VehicleRouting.interpret", "destructive walk through the edge list in a while loop with pop: bounded check")
    ctx.beyond("Tsp.parse_tsplib_format, create_random_instance", "file reader and random instances: bounded check")
    ctx.contract("Tsp.to_quadratic_program", tsp_program)
    ctx.contract("Tsp.to_quadratic_program at a permutation", tsp_length)
    ctx.contract("Tsp.interpret", tsp_interpret)
    ctx.contract("Tsp.tsp_value", tsp_value)
    ctx.contract("VehicleRouting.to_quadratic_program", vrp_program(False))
    ctx.contract("VehicleRouting.to_quadratic_program[setters]", vrp_program(True))
