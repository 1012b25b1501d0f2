"""C15 runtime contracts: graph applications."""
from common import *
import numpy as np
import os
import tempfile

RULE = ("seeded random graphs up to 6 nodes (weighted/unweighted/mixed/negative weights, isolated nodes, shuffled edge and node order), "
        "every binary point compared with the combinatorial definition; distinct = different JSON case")


def gen(r, tier):
    for t in range(220 if tier == "quick" else 2000):
        app = ["maxcut", "stable", "cover", "clique", "part"][t % 5]
        n = r.randint(1, 6)
        ed = [[i, j, r.choice([None, 1, 2, -3, 0.5, -1.25, 4, 0])] if r.random() < .5 else [j, i, r.choice([None, 2, -1, 3.5, 0])]
              for i in range(n) for j in range(i + 1, n) if r.random() < .5]
        r.shuffle(ed)
        if r.random() < .3:
            ed = [[a, b, None] for a, b, _ in ed]
        order = list(range(n))
        if r.random() < .5:
            r.shuffle(order)
        yield {"k": app, "n": n, "edges": ed, "order": order, "size": r.choice([None, 1, 2, 3]), "how": r.choice(["ctor", "setter"])}
    for t in range(12):
        n = r.randint(2, 12)
        ed = [[i, j, r.choice([1, -1, 5, 12])] for i in range(n) for j in range(i + 1, n) if r.random() < .4]
        yield {"k": "gset", "n": n, "edges": ed}


def run(c):
    import networkx as nx
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.applications import Maxcut, StableSet, VertexCover, Clique, GraphPartition
    from qiskit_optimization.algorithms import OptimizationResult, OptimizationResultStatus as ST
    n = c["n"]
    if c["k"] == "gset":
        d = tempfile.mkdtemp()
        f = os.path.join(d, "g.txt")
        try:
            with open(f, "w") as o:
                o.write("%d %d\n" % (n, len(c["edges"])) + "".join("%d %d %d\n" % (i + 1, j + 1, w) for i, j, w in c["edges"]))
            w = Maxcut.parse_gset_format(f)
        finally:
            if os.path.exists(f):
                os.remove(f)
            os.rmdir(d)
        want = np.zeros((n, n))
        for i, j, v in c["edges"]:
            want[i, j] = want[j, i] = v
        require(np.array_equal(w, want), "gset weights %s expected %s", w.tolist(), want.tolist())
        x = [k % 2 for k in range(n)]
        require(Maxcut.get_gset_result(np.array(x)) == {i + 1: 1 - x[i] for i in range(n)}, "gset result")
        return
    g = nx.Graph()
    g.add_nodes_from(c["order"])
    for i, j, w in c["edges"]:
        if w is None:
            g.add_edge(i, j)
        else:
            g.add_edge(i, j, weight=w)
    before = sorted((sorted(e[:2]), dict(e[2])) for e in g.edges(data=True))
    W = [(i, j, 1 if w is None else w) for i, j, w in c["edges"]]
    E = {frozenset(e[:2]) for e in W}
    cls = {"maxcut": Maxcut, "stable": StableSet, "cover": VertexCover, "clique": Clique, "part": GraphPartition}[c["k"]]
    if c["k"] == "clique":
        app = Clique(g, c["size"]) if c["how"] == "ctor" else Clique(g)
        app.size = c["size"]
        require(app.size == c["size"], "size")
    else:
        app = cls(g)
    q = app.to_quadratic_program()
    require(before == sorted((sorted(e[:2]), dict(e[2])) for e in g.edges(data=True)), "input graph modified")
    w = coherent(q)
    same_view(view(app.to_quadratic_program()), w, "second call")
    require(len(w["vars"]) == n and all(v[1] == "b" for v in w["vars"]), "variables %s", w["vars"])
    for x in itertools.product([0, 1], repeat=n):
        S = [i for i in range(n) if x[i]]
        cut = sum(v for i, j, v in W if x[i] != x[j])
        ok = True
        if c["k"] == "maxcut":
            want, sense = cut, -1
        elif c["k"] == "part":
            want, sense, ok = cut, 1, len(S) == n // 2
        elif c["k"] == "stable":
            want, sense, ok = len(S), -1, not any(frozenset(e) in E for e in itertools.combinations(S, 2))
        elif c["k"] == "cover":
            want, sense, ok = len(S), 1, all(x[i] or x[j] for i, j, _ in W)
        else:
            ok = all(frozenset(e) in E for e in itertools.combinations(S, 2))
            if c["size"] is None:
                want, sense = len(S), -1
            else:
                want, sense, ok = 0, w["sense"], ok and len(S) == c["size"]
        require(w["sense"] == sense, "sense %s", w["sense"])
        require(close(ev_obj(w, x), want), "objective at %s: %s expected %s", x, ev_obj(w, x), want)
        require(feasible(w, x) == ok, "feasibility at %s: %s expected %s", x, feasible(w, x), ok)
        require(q.is_feasible(list(x)) == ok, "is_feasible at %s", x)
        exp = [[i for i in range(n) if not x[i]], S] if c["k"] in ("maxcut", "part") else S
        for arg in (np.array(x), np.array(x, float), OptimizationResult(np.array(x, float), 0.0, q.variables, ST.SUCCESS)):
            got = app.interpret(arg)
            require(got == exp, "interpret(%s) = %s expected %s", x, got, exp)
    require(raises(lambda: app.interpret([0] * n), TypeError), "list accepted by interpret")
