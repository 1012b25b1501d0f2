"""C13 runtime contracts: RecursiveMinimumEigenOptimizer."""
from common import *
import numpy as np

RULE = ("a stub sub-optimizer reports seeded random correlations, a stub final optimizer a random assignment; every reduced problem "
        "seen is compared with the objective at the extended point and the result with the recorded replacements; "
        "distinct = different JSON case")


def gen(r, tier):
    for t in range(140 if tier == "quick" else 1200):
        conv = r.choice([0, 0, 1])
        spec = rnd_spec(r, n=r.randint(2, 5), types="b" if conv or r.random() < .6 else "bi", nq=0, nl=0 if conv else r.choice([0, 0, 1]), wide=1, kind=r.choice(["int", "dyadic"]) if conv else "int")
        if conv == 0 and r.random() < .7:
            spec["lcs"] = []
        yield {"k": "rec", "spec": spec, "conv": conv, "min": r.randint(1, 3), "hist": r.randint(0, 2), "seed": r.randint(0, 10 ** 6),
               "final": r.choice(["best", "rand"])}


def run(c):
    from qiskit_optimization.algorithms import (RecursiveMinimumEigenOptimizer, OptimizationAlgorithm, OptimizationResult,
                                                OptimizationResultStatus as ST, IntermediateResult, SolutionSample)
    from qiskit_optimization.converters import QuadraticProgramToQubo
    spec = c["spec"]
    q = build(spec)
    r = random.Random(c["seed"])
    seen = []

    class Sub(OptimizationAlgorithm):
        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, problem):
            v = view(problem)
            n = len(v["vars"])
            cand = [[r.randint(0, 1) for _ in range(n)] for _ in range(r.randint(1, 3))]
            ps = [r.choice([.2, .5, .3]) for _ in cand]
            tot = sum(ps)
            samples = [SolutionSample(np.array(x), 0.0, p / tot, ST.SUCCESS) for x, p in zip(cand, ps)]
            seen.append((v, cand, [p / tot for p in ps]))
            return OptimizationResult(np.array(cand[0]), 0.0, problem.variables, ST.SUCCESS, samples=samples)

    last = []

    class Fin(OptimizationAlgorithm):
        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, problem):
            v = view(problem)
            n = len(v["vars"])
            pts = list(itertools.product([0, 1], repeat=n))
            x = min(pts, key=lambda p: v["sense"] * ev_obj(v, p)) if c["final"] == "best" else r.choice(pts)
            last.append((v, x))
            return OptimizationResult(np.array(x), ev_obj(v, x), problem.variables, ST.SUCCESS)
    ref = q if c["conv"] else QuadraticProgramToQubo().convert(q)
    names = [v.name for v in ref.variables]
    if len(names) > 9:
        return
    rv = view(ref)
    hist = [IntermediateResult.NO_ITERATIONS, IntermediateResult.LAST_ITERATION, IntermediateResult.ALL_ITERATIONS][c["hist"]]
    opt = RecursiveMinimumEigenOptimizer(Sub(), min_num_vars=c["min"], min_num_vars_optimizer=Fin(), history=hist, converters=[] if c["conv"] else None)
    with unchanged(q):
        res = opt.solve(q)
    rep = res.replacements
    require(len(last) == 1, "final optimizer called %s times", len(last))
    steps = max(0, len(names) - c["min"])
    require(len(seen) == steps and len(rep) == steps, "%s eliminations, %s replacements, expected %s", len(seen), len(rep), steps)
    order = list(rep)

    def extend(vals, reps):
        vals = dict(vals)
        for x in reversed(reps):
            y, s = rep[x]
            vals[x] = vals[y] if s == 1 else 1 - vals[y]
        return [vals[n_] for n_ in names]
    for k, (v, _, _) in enumerate(seen + [(last[0][0], None, None)]):
        vn = [a[0] for a in v["vars"]]
        require(vn == [n_ for n_ in names if n_ not in order[:k]], "step %s: variables %s", k, vn)
        require(v["sense"] == rv["sense"] and all(a[1] == "b" and (a[2], a[3]) == (0, 1) for a in v["vars"]), "step %s: variables %s", k, v["vars"])
        for p in itertools.islice(itertools.product([0, 1], repeat=len(vn)), 64):
            full = extend(dict(zip(vn, p)), order[:k])
            require(close(ev_obj(v, p), ev_obj(rv, full), 1e-7), "step %s: reduced objective %s expected %s", k, ev_obj(v, p), ev_obj(rv, full))
    for k, (v, cand, ps) in enumerate(seen):
        x, (y, s) = order[k], rep[order[k]]
        vn = [a[0] for a in v["vars"]]
        n = len(vn)
        cor = {(i, j): sum(p if b[i] == b[j] else -p for b, p in zip(cand, ps)) for i in range(n) for j in range(i)}
        i, j = vn.index(x), vn.index(y)
        a, b = max(i, j), min(i, j)
        require(close(abs(cor[a, b]), max(abs(t) for t in cor.values()), 1e-9), "step %s eliminates %s by %s, not the strongest correlation", k, x, y)
        require(s == (1 if cor[a, b] > 0 else -1) or abs(cor[a, b]) < 1e-12, "step %s: sign %s of correlation %s", k, s, cor[a, b])
    full = extend(dict(zip([a[0] for a in last[0][0]["vars"]], last[0][1])), order)
    if c["conv"]:
        want = [float(v) for v in full]
    else:
        cv = QuadraticProgramToQubo()
        cv.convert(q)
        want = [float(v) for v in cv.interpret(full)]
    require([float(v) for v in res.x] == want, "x = %s expected %s", res.x, want)
    require(close(res.fval, ev_obj(spec, want)), "fval %s expected %s", res.fval, ev_obj(spec, want))
    require((res.status == ST.SUCCESS) == feasible(spec, want), "status %s", res.status)
    h = res.history
    require(len(h[0]) == (steps if c["hist"] == 2 else 0) and (h[1] is None) == (c["hist"] == 0), "history %s", h)
