"""C20 runtime contracts: Goemans-Williamson rounding and warm-start QAOA."""
from common import *
import numpy as np

RULE = ("seeded random weighted graphs for the rounding optimizer (sorted/unsorted, unique or not); warm-start factory values, circuits "
        "and mixers; full warm-start solve with scripted pre-solver and eigensolver; aggregation of random results; distinct = JSON case")


def gen(r, tier):
    for t in range(30 if tier == "quick" else 250):
        n = r.randint(2, 5)
        yield {"k": "gw", "n": n, "edges": [[i, j, r.choice([1, 2, 3, 0.5, -1])] for i in range(n) for j in range(i + 1, n) if r.random() < .7] or [[0, 1, 1]],
               "cuts": r.randint(1, 8), "sort": r.random() < .8, "uniq": r.random() < .8, "seed": r.randint(0, 999)}
    for t in range(12 if tier == "quick" else 80):      # cuts of negative value; several cuts of the same value
        n = r.randint(3, 5)
        ws = [-1, -2, -3, 1, 2] if t % 2 else [1]
        yield {"k": "gw", "n": n, "edges": [[i, j, r.choice(ws)] for i in range(n) for j in range(i + 1, n) if r.random() < .8] or [[0, 1, 1]],
               "cuts": r.randint(5, 14), "sort": r.random() < .8, "uniq": True, "seed": r.randint(0, 999)}
    for t in range(60 if tier == "quick" else 500):
        n = r.randint(1, 3)
        yield {"k": "fac", "eps": r.choice([0, 0.1, 0.25, 0.5]), "x": [r.choice([0, 1, .5, .05, .93, .25, .75, .3]) for _ in range(n)], "beta": r.choice([0.3, 1.1, -0.7])}
    for e in (-0.1, 0.51, 2):
        yield {"k": "eps", "eps": e}
    for t in range(60 if tier == "quick" else 500):
        spec = rnd_spec(r, n=r.randint(1, 3), types=r.choice(["b", "bi"]), nq=0, nl=r.choice([0, 0, 1]), wide=1)
        yield {"k": "ws", "spec": spec, "relax": r.random() < .6, "num": r.randint(1, 3), "ns": r.randint(1, 3), "eps": r.choice([.1, .25]), "seed": r.randint(0, 10 ** 6), "conv": r.choice([0, 1])}
    for t in range(40 if tier == "quick" else 300):
        yield {"k": "agg", "seed": r.randint(0, 10 ** 6), "nr": r.randint(1, 4), "n": r.randint(1, 3)}


def run(c):
    from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult
    from qiskit.quantum_info import Statevector, Operator
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
    from qiskit_optimization.converters import QuadraticProgramToQubo
    from qiskit_optimization.algorithms import (GoemansWilliamsonOptimizer, WarmStartQAOAOptimizer, WarmStartQAOAFactory, MeanAggregator, SolutionSample,
                                                MinimumEigenOptimizationResult, OptimizationAlgorithm, OptimizationResult, OptimizationResultStatus as ST)
    r = random.Random(c.get("seed", 0))
    if c["k"] == "gw":
        import networkx as nx
        from qiskit_optimization.applications import Maxcut
        g = nx.Graph()
        g.add_nodes_from(range(c["n"]))
        for i, j, w in c["edges"]:
            g.add_edge(i, j, weight=w)
        q = Maxcut(g).to_quadratic_program()
        with unchanged(q):
            res = GoemansWilliamsonOptimizer(num_cuts=c["cuts"], sort_cuts=c["sort"], unique_cuts=c["uniq"], seed=c["seed"]).solve(q)
        W = c["edges"]

        def cut(x):
            return sum(w for i, j, w in W if x[i] != x[j])
        require(1 <= len(res.samples) <= c["cuts"] and (c["uniq"] or len(res.samples) == c["cuts"]), "number of samples %s", len(res.samples))
        seen = set()
        for s in res.samples:
            x = [int(v) for v in s.x]
            require(len(x) == c["n"] and set(x) <= {0, 1}, "cut %s", x)
            require(close(s.fval, cut(x)) and close(s.fval, q.objective.evaluate(x)), "value of %s: %s expected %s", x, s.fval, cut(x))
            require(close(s.probability, 1 / len(res.samples)), "probability")
            key = tuple(x) if x[0] == 0 else tuple(1 - v for v in x)
            require(not c["uniq"] or key not in seen, "cut %s twice", x)
            seen.add(key)
        if c["uniq"]:       # the same cuts without removing repetitions
            allc = GoemansWilliamsonOptimizer(num_cuts=c["cuts"], sort_cuts=c["sort"], unique_cuts=False, seed=c["seed"]).solve(q)
            canon = {tuple(x) if x[0] == 0 else tuple(1 - v for v in x) for x in ([int(v) for v in s.x] for s in allc.samples)}
            require(seen == canon, "distinct cuts %s, returned %s", sorted(canon), sorted(seen))
        fs = [s.fval for s in res.samples]
        require(not c["sort"] or fs == sorted(fs, reverse=True), "cuts not sorted %s", fs)
        require(list(res.x) == list(res.samples[0].x) and res.fval == res.samples[0].fval and res.status == ST.SUCCESS, "result is not the first sample")
        require(close(res.fval, q.objective.evaluate(res.x)), "fval")
        return
    if c["k"] == "eps":
        require(raises(lambda: WarmStartQAOAFactory(c["eps"]), QiskitOptimizationError), "epsilon %s accepted", c["eps"])
        return
    if c["k"] == "fac":
        f = WarmStartQAOAFactory(c["eps"])
        x0 = list(c["x"])
        iv = f.create_initial_variables(x0)
        require(x0 == c["x"], "solution modified")
        want = [min(max(v, c["eps"]), 1 - c["eps"]) for v in c["x"]]
        require(len(iv) == len(want) and all(close(a, b) for a, b in zip(iv, want)), "initial variables %s expected %s", iv, want)
        n = len(want)
        sv = Statevector.from_instruction(f.create_initial_state(iv)).data
        for k in range(2 ** n):
            p = np.prod([want[i] if (k >> i) & 1 else 1 - want[i] for i in range(n)])
            require(close(abs(sv[k]) ** 2, float(p), 1e-9), "initial state probability of %s: %s expected %s", k, abs(sv[k]) ** 2, p)
        mx = f.create_mixer(iv)
        require(len(mx.parameters) == 1, "mixer parameters")
        U = Operator(mx.bind_parameters({list(mx.parameters)[0]: c["beta"]})).data
        ex = np.array([[1]])
        for i in range(n):
            t = 2 * np.arcsin(np.sqrt(want[i]))
            ry = lambda a: np.array([[np.cos(a / 2), -np.sin(a / 2)], [np.sin(a / 2), np.cos(a / 2)]])
            rz = np.diag([np.exp(1j * c["beta"]), np.exp(-1j * c["beta"])])
            ex = np.kron(ry(t) @ rz @ ry(-t), ex)
        require(np.allclose(U, ex), "mixer")
        require(abs(abs(np.vdot(sv, U @ sv)) - 1) < 1e-9, "initial state is not an eigenstate of the mixer")
        return
    if c["k"] == "agg":
        q = QuadraticProgram()
        for i in range(c["n"]):
            q.binary_var("v%d" % i)
        results, want = [], {}
        for _ in range(c["nr"]):
            sm, used = [], set()
            for _ in range(r.randint(1, 4)):
                x = tuple(r.randint(0, 1) for _ in range(c["n"]))
                if x in used:
                    continue
                used.add(x)
                p = r.choice([.25, .5, .125, 1.0])
                st = ST.SUCCESS if sum(x) % 2 == 0 else ST.INFEASIBLE
                sm.append(SolutionSample(np.array(x), float(sum(x)), p, st))
                want[x] = want.get(x, 0) + p / c["nr"]
            results.append(MinimumEigenOptimizationResult(sm[0].x, sm[0].fval, q.variables, ST.SUCCESS, samples=sm, raw_samples=sm))
        got = MeanAggregator().aggregate(results)
        gd = {tuple(int(v) for v in s.x): s for s in got}
        require(len(gd) == len(got) and set(gd) == set(want), "states %s expected %s", set(gd), set(want))
        for x, s in gd.items():
            require(close(s.probability, want[x]) and s.fval == sum(x) and s.status == (ST.SUCCESS if sum(x) % 2 == 0 else ST.INFEASIBLE), "sample %s expected %s", s, want[x])
        return
    spec = c["spec"]
    if c["conv"] and (any(v[1] != "b" for v in spec["vars"]) or spec["lcs"]):
        c = dict(c, conv=0)
    q = build(spec)
    ref = [] if c["conv"] else [QuadraticProgramToQubo()]
    p2 = q
    for cv in ref:
        p2 = cv.convert(p2)
    pv = view(p2)
    m = len(pv["vars"])
    if m > 6:
        return
    runs, pres = [], []

    class Fake(MinimumEigensolver):
        initial_state = None
        mixer = None

        @classmethod
        def supports_aux_operators(cls):
            return True

        def compute_minimum_eigenvalue(self, operator, aux_operators=None):
            res = MinimumEigensolverResult()
            cnt = {format(r.randrange(2 ** m), "b").zfill(m): r.randint(1, 20) for _ in range(r.randint(1, 3))}
            runs.append((self.initial_state, self.mixer, cnt))
            res.eigenstate = dict(cnt)
            res.eigenvalue = 0
            return res

    class Pre(OptimizationAlgorithm):
        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, problem):
            v = view(problem)
            sm = [SolutionSample(np.array([r.choice([0, 1, .3, .6, .9]) for _ in v["vars"]]), 0.0, 1.0 / c["ns"], ST.SUCCESS) for _ in range(c["ns"])]
            pres.append((v, [list(s.x) for s in sm]))
            return OptimizationResult(sm[0].x, 0.0, problem.variables, ST.SUCCESS, samples=sm)
    opt = WarmStartQAOAOptimizer(pre_solver=Pre(), relax_for_pre_solver=c["relax"], qaoa=Fake(), epsilon=c["eps"], num_initial_solutions=c["num"],
                                 converters=[] if c["conv"] else None)
    with unchanged(q):
        res = opt.solve(q)
    require(len(pres) == 1, "pre-solver called %s times", len(pres))
    v, sols = pres[0]
    exp = dict(pv)
    if c["relax"]:
        exp["vars"] = [[a, "c", 0, 1] for a, *_ in pv["vars"]]
    same_view(exp, v, "problem of the pre-solver")
    k = min(c["num"], c["ns"])
    require(len(runs) == k, "%s runs, expected %s", len(runs), k)
    want = {}
    for (ini, mix, cnt), x in zip(runs, sols):
        cl = [min(max(t, c["eps"]), 1 - c["eps"]) for t in x]
        sv = Statevector.from_instruction(ini).data
        for b in range(2 ** m):
            p = np.prod([cl[i] if (b >> i) & 1 else 1 - cl[i] for i in range(m)])
            require(close(abs(sv[b]) ** 2, float(p), 1e-9), "initial state of run")
        tot = sum(cnt.values())
        for bs, w in cnt.items():
            b = int(bs, 2)
            y = [(b >> i) & 1 for i in range(m)]
            for cv in ref[::-1]:
                y = cv.interpret(y)
            y = tuple(float(t) for t in y)
            want[y] = want.get(y, 0) + w / tot / k
    got = {tuple(float(t) for t in s.x): s for s in res.samples}
    require(len(got) == len(res.samples) and set(got) == set(want), "samples %s expected %s", set(got), set(want))
    for x, s in got.items():
        require(close(s.probability, want[x], 1e-9) and close(s.fval, ev_obj(spec, x)) and (s.status == ST.SUCCESS) == feasible(spec, x), "sample %s expected %s", s, want[x])
    require(close(res.fval, ev_obj(spec, res.x)) and (res.status == ST.SUCCESS) == feasible(spec, res.x) and tuple(float(t) for t in res.x) in want, "result %s", res)
    keys = [(0 if feasible(spec, s.x) else 1, spec["sense"] * s.fval) for s in res.samples]
    require(all(a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1] + 1e-9) for a, b in zip(keys, keys[1:])), "samples not ordered: %s", keys)
    if k > 1:
        x = tuple(float(t) for t in res.x)
        require(close(keys[0][0], 0 if feasible(spec, x) else 1) and close(keys[0][1], spec["sense"] * ev_obj(spec, x)), "result is not the best sample")
