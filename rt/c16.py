"""C16 runtime contracts: TSP and vehicle routing."""
from common import *
import numpy as np
import os
import tempfile

RULE = ("seeded random complete graphs: all permutations and random 0/1 points for TSP, all/most edge subsets for vehicle routing with "
        "every depot and vehicle count; generated coordinate files for the reader; distinct = different JSON case")


def gen(r, tier):
    for t in range(50 if tier == "quick" else 400):
        n = r.randint(2, 4)
        yield {"k": "tsp", "n": n, "w": [[i, j, r.choice([1, 2, 7, 3.5, -1, 10])] for i in range(n) for j in range(i + 1, n)], "seed": r.randint(0, 10 ** 6),
               "order": r.sample(range(n), n)}
    for t in range(60 if tier == "quick" else 400):
        n = r.randint(2, 5)
        yield {"k": "vrp", "n": n, "w": [[i, j, r.choice([1, 2, 7, 3.5, 10])] for i in range(n) for j in range(i + 1, n)], "seed": r.randint(0, 10 ** 6),
               "veh": r.randint(1, 3), "depot": r.randrange(n), "how": r.choice(["ctor", "setter"])}
    for t in range(30):
        n = r.randint(3, 12)
        yield {"k": "lib", "pts": [[r.randint(-9, 50), r.choice([r.randint(0, 40), r.randint(0, 80) / 2])] for _ in range(n)], "perm": r.sample(range(n), n),
               "eof": r.random() < .7, "sp": r.choice(["", " "])}
    for kind in ("TYPE", "EDGE"):
        yield {"k": "libbad", "kind": kind}
    for t in range(20):
        n = r.randint(2, 9)
        yield {"k": "value", "n": n, "seed": t}


def run(c):
    import networkx as nx
    from qiskit_optimization import QiskitOptimizationError
    from qiskit_optimization.applications import Tsp, VehicleRouting
    from qiskit_optimization.algorithms import OptimizationResult, OptimizationResultStatus as ST
    r = random.Random(c.get("seed", 0))
    if c["k"] in ("lib", "libbad"):
        d = tempfile.mkdtemp()
        f = os.path.join(d, "g.tsp")
        try:
            with open(f, "w") as o:
                if c["k"] == "libbad":
                    o.write("NAME : a\nTYPE : %s\nDIMENSION : 1\nEDGE_WEIGHT_TYPE : %s\nNODE_COORD_SECTION\n1 0 0\nEOF\n" % (("ATSP", "EUC_2D") if c["kind"] == "TYPE" else ("TSP", "GEO")))
                else:
                    s = c["sp"]
                    o.write("NAME%s: abc\nCOMMENT : hello\nTYPE%s: TSP\nDIMENSION%s: %d\nEDGE_WEIGHT_TYPE%s: EUC_2D\nNODE_COORD_SECTION\n" % (s, s, s, len(c["pts"]), s))
                    for k in c["perm"]:
                        o.write("%d %s %s\n" % (k + 1, c["pts"][k][0], c["pts"][k][1]))
                    if c["eof"]:
                        o.write("EOF\n")
            if c["k"] == "libbad":
                require(raises(lambda: Tsp.parse_tsplib_format(f), QiskitOptimizationError), "unsupported file accepted")
                return
            g = Tsp.parse_tsplib_format(f).graph
        finally:
            if os.path.exists(f):
                os.remove(f)
            os.rmdir(d)
        n = len(c["pts"])
        require(sorted(g.nodes) == list(range(n)) and g.number_of_edges() == n * (n - 1) // 2, "graph of %s nodes, %s edges", len(g), g.number_of_edges())
        for i in range(n):
            require([float(v) for v in g.nodes[i]["pos"]] == [float(v) for v in c["pts"][i]], "position of %s", i)
            for j in range(i):
                want = np.rint(math.hypot(c["pts"][i][0] - c["pts"][j][0], c["pts"][i][1] - c["pts"][j][1]))
                require(g.edges[i, j]["weight"] == want, "distance %s %s: %s expected %s", i, j, g.edges[i, j]["weight"], want)
        return
    n = c["n"]
    if c["k"] == "value":
        A = [[r.randint(0, 9) for _ in range(n)] for _ in range(n)]
        z = r.sample(range(n), n)
        want = sum(A[z[k]][z[(k + 1) % n]] for k in range(n))
        require(Tsp.tsp_value(z, np.array(A)) == want, "tsp_value(%s) expected %s", z, want)
        for mk in (Tsp.create_random_instance, VehicleRouting.create_random_instance):
            g = mk(n, seed=c["seed"] + 1).graph
            require(g.number_of_nodes() == n and g.number_of_edges() == n * (n - 1) // 2, "random instance is not complete")
            for i, j in g.edges:
                p, q_ = g.nodes[i]["pos"], g.nodes[j]["pos"]
                require(g.edges[i, j]["weight"] == np.rint(math.hypot(p[0] - q_[0], p[1] - q_[1])), "random instance weight")
        return
    g = nx.Graph()
    if c["k"] == "tsp":
        g.add_nodes_from(c["order"])
    else:
        g.add_nodes_from(range(n))
    W = {}
    for i, j, w in c["w"]:
        g.add_edge(i, j, weight=w)
        W[i, j] = W[j, i] = w
    if c["k"] == "tsp":
        app = Tsp(g)
        q = app.to_quadratic_program()
        w = coherent(q)
        require(len(w["vars"]) == n * n and all(v[1] == "b" for v in w["vars"]) and w["sense"] == 1, "variables")
        perms = list(itertools.permutations(range(n)))
        for p in perms:
            x = [0] * (n * n)
            for k, i in enumerate(p):
                x[i * n + k] = 1
            require(feasible(w, x), "tour %s infeasible", p)
            want = sum(W[p[k], p[(k + 1) % n]] for k in range(n))
            require(close(ev_obj(w, x), want), "length of %s: %s expected %s", p, ev_obj(w, x), want)
            for arg in (np.array(x), OptimizationResult(np.array(x, float), 0.0, q.variables, ST.SUCCESS)):
                require(app.interpret(arg) == list(p), "interpret %s gives %s", p, app.interpret(arg))
        good = set()
        for p in perms:
            x = [0] * (n * n)
            for k, i in enumerate(p):
                x[i * n + k] = 1
            good.add(tuple(x))
        pts = list(itertools.product([0, 1], repeat=n * n)) if n <= 3 else [tuple(r.randint(0, 1) for _ in range(n * n)) for _ in range(200)]
        for p in perms[:20]:
            for _ in range(4):
                x = [0] * (n * n)
                for k, i in enumerate(p):
                    x[i * n + k] = 1
                x[r.randrange(n * n)] ^= 1
                pts.append(tuple(x))
        for x in pts:
            require(feasible(w, x) == (x in good), "constraints at %s: %s", x, feasible(w, x))
        # objective as a polynomial: sum over positions of w(i,j) x[i,k] x[j,k+1]
        for x in pts[:200]:
            want = sum(W[i, j] * x[i * n + k] * x[j * n + (k + 1) % n] for i in range(n) for j in range(n) for k in range(n) if i != j)
            require(close(ev_obj(w, x), want), "objective at %s", x)
            exp = []
            for k in range(n):
                st = [i for i in range(n) if x[i * n + k]]
                exp.append(st[0] if len(st) == 1 else st)
            require(app.interpret(np.array(x)) == exp, "interpret %s = %s expected %s", x, app.interpret(np.array(x)), exp)
        return
    veh, dep = c["veh"], c["depot"]
    if c["how"] == "ctor":
        app = VehicleRouting(g, veh, dep)
    else:
        app = VehicleRouting(g)
        app.num_vehicles, app.depot = veh, dep
    require(app.num_vehicles == veh and app.depot == dep, "properties")
    q = app.to_quadratic_program()
    w = coherent(q)
    ed = [(i, j) for i in range(n) for j in range(n) if i != j]
    require(len(w["vars"]) == len(ed) and all(v[1] == "b" for v in w["vars"]) and w["sense"] == 1, "variables")
    others = [i for i in range(n) if i != dep]

    def ok(x):
        u = [e for e, v in zip(ed, x) if v]
        if any(sum(e[0] == i for e in u) != (veh if i == dep else 1) or sum(e[1] == i for e in u) != (veh if i == dep else 1) for i in range(n)):
            return False
        for k in range(2, len(others) + 1):
            for s in itertools.combinations(others, k):
                if sum(e[0] in s and e[1] in s for e in u) > k - 1:
                    return False
        return True
    # all feasible points are unions of `veh` routes; build them plus perturbations
    pts, good = [], []
    for p in itertools.permutations(others):
        for cuts in itertools.combinations(range(1, len(others)), veh - 1) if len(others) >= veh else []:
            bounds = (0,) + cuts + (len(others),)
            routes = [list(p[a:b]) for a, b in zip(bounds, bounds[1:])]
            u = set()
            for rt in routes:
                seq = [dep] + rt + [dep]
                u |= set(zip(seq, seq[1:]))
            good.append((tuple(1 if e in u else 0 for e in ed), routes))
    r.shuffle(good)
    for x, routes in good[:30]:
        require(feasible(w, x), "routes %s infeasible", routes)
        got = app.interpret(np.array(x))
        exp = sorted([[a, b] for a, b in zip([dep] + rt, rt + [dep])] for rt in routes)
        require(sorted(got) == exp, "interpret(%s) = %s expected %s", x, got, exp)
        require(sorted(app.interpret(OptimizationResult(np.array(x, float), 0.0, q.variables, ST.SUCCESS))) == exp, "interpret of a result")
    for x, _ in good[:25]:
        for _ in range(4):
            y = list(x)
            for _ in range(r.randint(1, 3)):
                y[r.randrange(len(ed))] ^= 1
            pts.append(tuple(y))
    if len(ed) <= 6:
        pts += list(itertools.product([0, 1], repeat=len(ed)))
    else:
        # sub-tours: 2-cycles and 3-cycles among the others with depot routes
        for a, b in itertools.combinations(others, 2):
            rest = [o for o in others if o not in (a, b)]
            u = {(a, b), (b, a)}
            for o in rest[:veh]:
                u |= {(dep, o), (o, dep)}
            pts.append(tuple(1 if e in u else 0 for e in ed))
        if len(others) >= 4:
            a, b, d, e_ = others[:4]
            u = {(a, b), (b, d), (d, a), (dep, e_), (e_, dep)}
            pts.append(tuple(1 if e in u else 0 for e in ed))
    for x in pts:
        require(feasible(w, x) == ok(x), "constraints at %s: %s expected %s", x, feasible(w, x), ok(x))
        want = sum(W[e] for e, v in zip(ed, x) if v)
        require(close(ev_obj(w, x), want), "objective at %s: %s expected %s", x, ev_obj(w, x), want)
        got = app.interpret(np.array(x))
        flat = sorted(tuple(e) for rt in got for e in rt)
        require(flat == sorted(e for e, v in zip(ed, x) if v), "interpret(%s) = %s loses edges", x, got)
