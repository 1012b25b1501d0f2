"""C15: graph applications."""
from .apps import *


def program(name, mod, sense, obj, cons, make=None):
    def fn(ctx):
        eng = setup_app()
        g = graph(eng)

        def go():
            app = make(eng, g) if make else eng.call(eng.resolve(APP + mod), [g.rec()])
            return eng.call(eng.getattr(app, "to_quadratic_program"), [])
        paths = eng.explore(go)
        ctx.vac["paths"] += len(paths)
        for k, p in enumerate(paths):
            nm = "%s path %d: " % (name, k)
            facts = eng.facts + p.pc
            if p.out == "raise":
                ctx.fact(nm + "does not raise", False, str(p.val))
                continue
            m = imported(ctx, nm, p)
            if m is None:
                continue
            v = binary_vars(ctx, nm, facts, m, [g.n])
            if v is None:
                continue
            x = lambda i: pt(v(i))
            objective(ctx, nm, facts + BITS, m, sense, obj(g, x) if obj else None)
            family(ctx, nm, facts, m["cons"].segs, cons(g, x))
        ctx.fact("%s has a path" % name, bool(paths))
        ctx.side(eng, prefix="%s: " % name)
        return eng
    return fn


def count(g, x):
    b = Binder(freshi(), z3.IntVal(0), g.n)
    return mk_sum([b], TRUE, x(b.var))


def cut(g, x):
    """Total weight of the edges whose ends differ."""
    b = Binder(freshi(), z3.IntVal(0), g.M)
    u, v = x(g.eu(b.var)), x(g.ev(b.var))
    # ends of 0/1 values differ exactly if (u - v)^2 = 1 (and are equal exactly if it is 0)
    return mk_sum([b], TRUE, g.w(b.var) * (u - v) * (u - v))


def edges_cond(f):
    return lambda g, x: [("edges", [g.M], lambda k: TRUE, lambda k: ("bool", f(x(g.eu(k)) == 1, x(g.ev(k)) == 1)))]


def clique_cons(size):
    def fn(g, x):
        out = [("non-adjacent pairs", [g.MC], lambda k: TRUE, lambda k: ("bool", z3.Not(z3.And(x(g.cu(k)) == 1, x(g.cv(k)) == 1))))]
        if size is not None:
            out.append(("size", [], lambda: TRUE, lambda: ("sum", count(g, x) - real(size), "==")))
        return out
    return fn


def half(g, x):
    return [("balance", [], lambda: TRUE, lambda: ("sum", count(g, x) - z3.ToReal(g.n / 2), "=="))]


def interpretation(name, mod, two):
    def fn(ctx):
        for form, _ in result_forms(None, 0):
            eng = setup_app()
            g = graph(eng)
            f = z3.Function("xv", I, R)
            i = z3.Int("qi")
            eng.facts.append(z3.ForAll([i], z3.Or(f(i) == 0, f(i) == 1), patterns=[f(i)]))
            x = dict(result_forms(f, g.n))[form]

            def go():
                app = eng.call(eng.resolve(APP + mod), [g.rec()])
                return eng.call(eng.getattr(app, "interpret"), [x])
            for k, p in enumerate(eng.explore(go)):
                nm = "%s.interpret[%s] path %d: " % (name, form, k)
                facts = eng.facts + p.pc
                if p.out == "raise":
                    ctx.fact(nm + "does not raise", False, str(p.val))
                    continue
                if two:
                    c = p.cells[p.val.id] if isinstance(p.val, Ref) else None
                    if not ctx.fact(nm + "two lists", isinstance(c, ListV) and c.concrete() and len(c.segs) == 2, str(c)[:200]):
                        continue
                    for side in (0, 1):
                        one_list(ctx, nm + "side %d: " % side, facts, p.cells, c.segs[side].val, g.n, lambda b: f(b) == side, lambda b: b)
                else:
                    one_list(ctx, nm, facts, p.cells, p.val, g.n, lambda b: f(b) == 1, lambda b: b)
        return eng
    return fn


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("docplex: Model.sum, arithmetic and comparison of expressions mean what they say; from_docplex imports the model faithfully (C11)",
               "networkx: edges enumerates the edges, complement(g).edges the non-adjacent pairs of different nodes, Graph(g) is an independent copy",
               "nodes are 0..n-1; values given to interpret are 0 or 1")
    for form in ("parse_gset_format", "draw"):
        ctx.beyond(form, "file input / drawing")
    ctx.contract("Maxcut.to_quadratic_program", program("Maxcut", "max_cut.Maxcut", -1, cut, lambda g, x: []))
    ctx.contract("StableSet.to_quadratic_program", program("StableSet", "stable_set.StableSet", -1, count, edges_cond(lambda a, b: z3.Not(z3.And(a, b)))))
    ctx.contract("VertexCover.to_quadratic_program", program("VertexCover", "vertex_cover.VertexCover", 1, count, edges_cond(lambda a, b: z3.Or(a, b))))
    ctx.contract("Clique.to_quadratic_program[max]", program("Clique[max]", "clique.Clique", -1, count, clique_cons(None)))
    size = z3.Int("size")
    ctx.contract("Clique.to_quadratic_program[size]", program("Clique[size]", "clique.Clique", 1, None, clique_cons(size),
                 lambda e, g: e.call(e.resolve(APP + "clique.Clique"), [g.rec(), size])))

    def set_size(e, g):
        c = e.call(e.resolve(APP + "clique.Clique"), [g.rec()])
        e.setattr(c, "size", size)
        return c
    ctx.contract("Clique.to_quadratic_program[size set later]", program("Clique[setter]", "clique.Clique", 1, None, clique_cons(size), set_size))
    ctx.contract("GraphPartition.to_quadratic_program", program("GraphPartition", "graph_partition.GraphPartition", 1, cut, half))
    for name, mod, two in (("Maxcut", "max_cut.Maxcut", True), ("StableSet", "stable_set.StableSet", False), ("VertexCover", "vertex_cover.VertexCover", False),
                           ("Clique", "clique.Clique", False), ("GraphPartition", "graph_partition.GraphPartition", True)):
        ctx.contract(name + ".interpret", interpretation(name, mod, two))
