"""C17 runtime contracts: knapsack, exact cover, set packing, number partition."""
from common import *
import numpy as np

RULE = ("seeded random instances (repeated elements, empty subsets, zero and negative numbers, string elements), every binary point "
        "compared with the definition; distinct = different JSON case")


def gen(r, tier):
    for t in range(300 if tier == "quick" else 2500):
        k = ["knap", "cover", "pack", "num"][t % 4]
        n = r.randint(1, 6) if r.random() < .95 else 9
        c = {"k": k, "how": r.choice(["ctor", "setter"])}
        if k == "knap":
            c.update(v=[r.choice([0, 1, 3, 10, 2.5]) for _ in range(n)], w=[r.choice([1, 2, 5, 1.5, 0]) for _ in range(n)], m=r.choice([0, 3, 5.5, 8]))
        elif k == "num":
            c.update(s=[r.choice([0, 1, 2, 3, 7, -2, 1.5]) for _ in range(n)])
        else:
            pool = r.choice([[1, 2, 3, 4], ["a", "b", "c", "aa"], [10, 2, -3, 0]])
            c.update(s=[[r.choice(pool) for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(n)])
            if r.random() < .2:
                c["s"].append([])
        yield c


def run(c):
    from qiskit_optimization.applications import Knapsack, ExactCover, SetPacking, NumberPartition
    from qiskit_optimization.algorithms import OptimizationResult, OptimizationResultStatus as ST
    import copy
    k = c["k"]
    args = copy.deepcopy(c)
    if k == "knap":
        app = Knapsack(args["v"], args["w"], args["m"] if c["how"] == "ctor" else 1)
        app.max_weight = args["m"]
        require(app.max_weight == c["m"], "max_weight")
        n = len(c["v"])
    else:
        app = {"cover": ExactCover, "pack": SetPacking, "num": NumberPartition}[k](args["s"])
        n = len(c["s"])
    if k == "num" and all(v == 0 for v in c["s"]):
        return  # docplex drops a constraint without variables
    q = app.to_quadratic_program()
    require(args == c, "arguments modified")
    w = coherent(q)
    same_view(view(app.to_quadratic_program()), w, "second call")
    require(len(w["vars"]) == n and all(v[1] == "b" for v in w["vars"]), "variables %s", w["vars"])
    for x in itertools.product([0, 1], repeat=n):
        ch = [i for i in range(n) if x[i]]
        if k == "knap":
            want, sense, ok = sum(c["v"][i] for i in ch), -1, sum(c["w"][i] for i in ch) <= c["m"] + 1e-9
            exp = ch
        elif k == "num":
            want, sense = 0, w["sense"]
            exp = [[v for v, b in zip(c["s"], x) if not b], [v for v, b in zip(c["s"], x) if b]]
            ok = close(sum(exp[0]), sum(exp[1]))
        else:
            els = {e for s in c["s"] for e in s}
            cnt = {e: sum(e in c["s"][i] for i in ch) for e in els}
            ok = all((v == 1 if k == "cover" else v <= 1) for v in cnt.values())
            want, sense, exp = len(ch), (1 if k == "cover" else -1), [c["s"][i] for i in ch]
        require(w["sense"] == sense, "sense %s", w["sense"])
        require(close(ev_obj(w, x), want), "objective at %s: %s expected %s", x, ev_obj(w, x), want)
        require(feasible(w, x) == ok, "feasibility at %s: %s expected %s", x, feasible(w, x), ok)
        for arg in (np.array(x), np.array(x, float), OptimizationResult(np.array(x, float), 0.0, q.variables, ST.SUCCESS)):
            require(app.interpret(arg) == exp, "interpret(%s) = %s expected %s", x, app.interpret(arg), exp)
    require(raises(lambda: app.interpret([0] * n), TypeError), "list accepted by interpret")
