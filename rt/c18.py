"""C18 runtime contracts: ADMMOptimizer."""
from common import *
import numpy as np

RULE = ("scripted sub-solvers record every subproblem and answer with seeded random points; the whole iteration (multipliers, penalty "
        "parameter, subproblem objectives/constraints, recorded traces, best merit) is replayed independently; distinct = JSON case")


def gen(r, tier):
    made = 0
    while made < (130 if tier == "quick" else 1200):
        spec = rnd_spec(r, n=r.randint(1, 5), types=r.choice(["bc", "bc", "b", "bci"]), kind=r.choice(["int", "dyadic"]), wide=2, nq=r.choice([0, 0, 1]))
        spec["quad"] = [[i, j, v] for i, j, v in spec["quad"] if (spec["vars"][i][1] == "c") == (spec["vars"][j][1] == "c")]
        if any(v[1] == "c" and v[2] == v[3] for v in spec["vars"]):
            continue
        if not any(v[1] != "c" for v in spec["vars"]):
            continue
        b = [i for i, v in enumerate(spec["vars"]) if v[1] == "b"]
        if b and r.random() < .6:
            spec["lcs"].append(["beq", [[i, rnd_coef(r)] for i in b if r.random() < .7] or [[b[0], 1]], "==", r.randint(0, 2)])
        for l in spec["lcs"]:
            if not l[1]:
                l[1] = [[0, 1]]
        for l in spec["qcs"]:
            if not l[2]:
                l[2] = [[0, 0, 1]]
        made += 1
        yield {"k": "admm", "spec": spec, "three": r.random() < .6, "rho": r.choice([1.0, 5.0, 100.0]), "vary": r.choice([0, 1]), "fc": r.choice([10.0, 1000.0]),
               "beta": r.choice([10.0, 1000.0]), "mu": r.choice([2.0, 100.0]), "it": r.randint(1, 4), "warm": r.random() < .25, "seed": r.randint(0, 10 ** 6), "conv": r.random() < .2}
    for t in range(24 if tier == "quick" else 120):
        # binary variables that only occur in equalities, and ones whose quadratic coefficients cancel out
        n = r.randint(4, 6)
        spec = rnd_spec(r, n=n, types="b", nl=0, nq=0)
        if t % 3 == 0:
            spec["vars"][r.randint(0, n - 1)] = ["cc", "c", 0, 2]
        b = [i for i, v in enumerate(spec["vars"]) if v[1] == "b"]
        r.shuffle(b)
        spec["lin"], spec["quad"] = [], []
        if t % 2:
            spec["quad"] = sorted([min(b[0], j), max(b[0], j), w] for j, w in ((b[1], 2), (b[2], -2)))
        spec["lcs"] = [["beq%d" % k, [[i, r.choice([1, -1, 2])] for i in sorted(b[k:k + r.randint(2, 3)])], "==", r.randint(0, 2)] for k in range(r.randint(0 if t % 2 else 1, 2))]
        yield {"k": "admm", "spec": spec, "three": r.random() < .6, "rho": 5.0, "vary": 0, "fc": 10.0, "beta": 10.0, "mu": 2.0, "it": 2, "warm": False, "seed": r.randint(0, 10 ** 6), "conv": False}
    for t in range(20):
        spec = rnd_spec(r, n=3, types="b", nl=0, nq=0)
        spec["vars"][r.randint(0, 2)] = ["cc", "c", 0, 2]
        k = [i for i, v in enumerate(spec["vars"]) if v[1] == "c"][0]
        o = (k + 1) % 3
        spec["quad"] = [[min(k, o), max(k, o), 1]]
        yield {"k": "rej", "spec": spec}


def run(c):
    from qiskit_optimization import QiskitOptimizationError
    from qiskit_optimization.algorithms import (ADMMOptimizer, ADMMParameters, OptimizationAlgorithm, OptimizationResult,
                                                OptimizationResultStatus as ST)
    from qiskit_optimization.converters import IntegerToBinary
    spec = c["spec"]
    q = build(spec)

    r = random.Random(c.get("seed", 0))
    calls = []

    class Q(OptimizationAlgorithm):
        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, problem):
            v = view(problem)
            x = [r.randint(0, 1) for _ in v["vars"]]
            calls.append(("q", v, x))
            return OptimizationResult(np.array(x), 0.0, problem.variables, ST.SUCCESS)

    class C(OptimizationAlgorithm):
        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, problem):
            v = view(problem)
            x = [r.choice([0, .25, .5, 1, 0.125]) for _ in v["vars"]]
            calls.append(("c", v, x))
            return OptimizationResult(np.array(x, float), 0.0, problem.variables, ST.SUCCESS)
    if c["k"] == "rej":
        o = ADMMOptimizer(qubo_optimizer=Q(), continuous_optimizer=C())
        require(not o.is_compatible(q) and raises(lambda: o.solve(q), QiskitOptimizationError), "inseparable problem accepted")
        return
    par = ADMMParameters(rho_initial=c["rho"], factor_c=c["fc"], beta=c["beta"], maxiter=c["it"], tol=1e-9 if not c["conv"] else 50.0,
                         three_block=c["three"], vary_rho=c["vary"], mu_merit=c["mu"], warm_start=c["warm"], max_time=np.inf)
    opt = ADMMOptimizer(qubo_optimizer=Q(), continuous_optimizer=C(), params=par)
    with unchanged(q):
        res = opt.solve(q)
    i2b = IntegerToBinary()
    p = view(i2b.convert(q))
    sg = p["sense"]
    B = [i for i, v in enumerate(p["vars"]) if v[1] == "b"]
    U = [i for i, v in enumerate(p["vars"]) if v[1] == "c"]
    nb = len(B)
    lin = {i: sg * v for i, v in p["lin"]}
    quad = {(i, j): sg * v for i, j, v in p["quad"]}
    beq = [l for l in p["lcs"] if l[2] == "==" and all(i in B for i, _ in l[1])]
    step1 = sorted({i for i in B if i in lin or any(i in k for k in quad)} | {i for l in beq for i, _ in l[1]})
    lam, rho = np.zeros(nb), c["rho"]
    x0, z, y, u = np.zeros(nb), np.zeros(nb), np.zeros(nb), np.zeros(len(U))
    z_init = np.zeros(nb)
    it = iter(calls)
    if c["warm"]:
        kind, v, x = next(it)
        require(kind == "c" and all(a[1] == "c" for a in v["vars"]) and [a[0] for a in v["vars"]] == [a[0] for a in p["vars"]], "warm start problem")
        require({i: w for i, w in v["lin"]} == lin and v["lcs"] == p["lcs"] and v["qcs"] == p["qcs"], "warm start relaxation")
        x0, z, u = np.array([x[i] for i in B]), np.array([x[i] for i in B]), np.array([x[i] for i in U])
    st = res.state
    tr = {k: [] for k in ("x0", "u", "z", "y", "cost", "cons", "merit", "res", "dual", "lam")}
    resid, k = 100.0, 0
    rr = random.Random(1)

    def full(a, b):
        s = np.zeros(len(p["vars"]))
        for t, i in enumerate(B):
            s[i] = a[t]
        for t, i in enumerate(U):
            s[i] = b[t]
        return s
    while k < c["it"] and resid > (1e-9 if not c["conv"] else 50.0):
        if step1:
            kind, v, x = next(it)
            require(kind == "q" and [a[0] for a in v["vars"]] == [p["vars"][i][0] for i in step1], "binary subproblem variables %s expected %s", [a[0] for a in v["vars"]], [p["vars"][i][0] for i in step1])
            require(all(a[1] == "b" for a in v["vars"]) and not v["lcs"] and not v["qcs"] and v["sense"] == 1, "binary subproblem shape")
            base = None
            for pt in itertools.islice(itertools.product([0, 1], repeat=len(step1)), 32):
                s = np.zeros(len(p["vars"]))
                for t, i in enumerate(step1):
                    s[i] = pt[t]
                xb = np.array([s[i] for i in B])
                f = sum(w * s[i] for i, w in lin.items() if i in B) + sum(w * s[i] * s[j] for (i, j), w in quad.items() if i in B and j in B)
                f += c["fc"] / 2 * sum((ev_lin(l[1], s) - l[3]) ** 2 for l in beq)
                f += sum(lam[t] * xb[t] + rho / 2 * (xb[t] - z[t] - y[t]) ** 2 for t in range(nb))
                g = ev_obj(v, pt)
                base = f - g if base is None else base
                require(abs(f - g - base) <= 1e-7 * max(1, abs(f), abs(g)), "iteration %s: binary subproblem objective at %s", k, pt)
            x0 = np.zeros(nb)
            for t, i in enumerate(step1):
                x0[B.index(i)] = x[t]
        kind, v, x = next(it)
        require(kind == "c" and [a[0] for a in v["vars"]] == [a[0] for a in p["vars"]], "second subproblem variables")
        require(all(a[1] == "c" and ((a[2], a[3]) == (0, 1) if i in B else (a[2], a[3]) == tuple(p["vars"][i][2:])) for i, a in enumerate(v["vars"])), "second subproblem bounds")
        require(v["lcs"] == [l for l in p["lcs"] if l not in beq] and v["qcs"] == p["qcs"], "second subproblem constraints %s", v["lcs"])
        base = None
        for _ in range(8):
            s = np.array([rr.choice([0, .5, 1, .25]) for _ in p["vars"]])
            f = sum(w * s[i] for i, w in lin.items() if i in U) + sum(w * s[i] * s[j] for (i, j), w in quad.items() if i in U and j in U)
            f += sum(-lam[t] * s[i] + rho / 2 * (x0[t] - s[i] - y[t]) ** 2 for t, i in enumerate(B))
            g = ev_obj(v, s)
            base = f - g if base is None else base
            require(abs(f - g - base) <= 1e-7 * max(1, abs(f), abs(g)), "iteration %s: second subproblem objective at %s", k, s)
        u, z = np.array([x[i] for i in U]), np.array([x[i] for i in B])
        if c["three"] and nb:
            kind, v, x = next(it)
            require(kind == "c" and len(v["vars"]) == nb and not v["lcs"] and not v["qcs"], "third subproblem")
            base = None
            for _ in range(6):
                s = np.array([rr.choice([0, .5, -1, 2]) for _ in B])
                f = sum(c["beta"] / 2 * s[t] ** 2 - lam[t] * s[t] + rho / 2 * (x0[t] - z[t] - s[t]) ** 2 for t in range(nb))
                g = ev_obj(v, s)
                base = f - g if base is None else base
                require(abs(f - g - base) <= 1e-7 * max(1, abs(f), abs(g)), "iteration %s: third subproblem objective", k)
            y = np.array(x)
        lam = lam + rho * (x0 - z - y)
        s = full(x0, u)
        cost = sg * ev_obj(p, s)
        cons = sum(abs(ev_lin(l[1], s) - l[3]) if l[2] == "==" else max(0, (1 if l[2] == "<=" else -1) * (ev_lin(l[1], s) - l[3])) for l in p["lcs"])
        for l in p["qcs"]:
            d = ev_lin(l[1], s) + ev_quad(l[2], s) - l[4]
            cons += abs(d) if l[3] == "==" else max(0, d if l[3] == "<=" else -d)
        resid = float(np.linalg.norm(x0 - z - y))
        dual = rho * float(np.linalg.norm(z - (tr["z"][-1] if k else z_init)))
        for a, b in (("x0", x0), ("u", u), ("z", z), ("y", y), ("cost", cost), ("cons", cons), ("merit", cost + c["mu"] * cons), ("res", resid), ("dual", dual), ("lam", float(np.linalg.norm(lam)))):
            tr[a].append(b)
        if c["vary"] == 0:
            rho = rho * 1.1 if rho < 1e10 else rho
        else:
            if resid > par.mu_res * dual:
                rho *= par.tau_incr
            elif dual > par.mu_res * resid:
                rho /= par.tau_decr
        k += 1
    require(next(it, None) is None, "more subproblems solved than expected")
    for a, b in (("cost", st.cost_iterates), ("cons", st.cons_r), ("merit", st.merits), ("res", st.residuals), ("dual", st.dual_residuals), ("lam", st.lambdas),
                 ("x0", st.x0_saved), ("u", st.u_saved), ("z", st.z_saved), ("y", st.y_saved)):
        require(len(b) == k, "%s entries in trace %s, %s iterations", len(b), a, k)
        for t in range(k):
            if a == "dual" and c["warm"]:
                continue
            require(np.allclose(np.asarray(b[t], float), np.asarray(tr[a][t], float), atol=1e-7), "trace %s at iteration %s: %s expected %s", a, t, b[t], tr[a][t])
    bi = min(range(k), key=lambda t: tr["merit"][t])
    want = i2b.interpret(full(tr["x0"][bi], tr["u"][bi]))
    require(np.allclose(res.x, want) or any(abs(tr["merit"][t] - tr["merit"][bi]) < 1e-9 and np.allclose(res.x, i2b.interpret(full(tr["x0"][t], tr["u"][t]))) for t in range(k)), "x = %s expected %s", res.x, want)
    require(close(res.fval, ev_obj(spec, res.x)), "fval %s expected %s", res.fval, ev_obj(spec, res.x))
    require((res.status == ST.SUCCESS) == feasible(spec, res.x), "status %s", res.status)
