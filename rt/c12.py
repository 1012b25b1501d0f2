"""C12 runtime contracts: result interpretation of eigensolver-based optimizers."""
from common import *
import numpy as np

RULE = ("a stub eigensolver returns seeded random eigenstates (complex vectors, count dictionaries, DictStateFn, VectorStateFn, None) "
        "for random programs and converter chains; solution, samples, status and values are recomputed independently; "
        "distinct = different JSON case")

# dictionary eigenstates are documented as counts; terra 0.18 variational algorithms hand over square roots of
# probabilities when a shot-based simulator is used
KNOWN = [("sampled-amplitudes", "MinimumEigenOptimizer with a shot-based variational solver of qiskit-terra 0.18: the dict eigenstate "
          "holds square roots of probabilities but is read as counts, so reported probabilities are wrong",
          {"k": "sqrtdict"})]


def gen(r, tier):
    for t in range(220 if tier == "quick" else 2000):
        conv = r.choice(["default", "default", "none", "int", "chain", "single"])
        types = "b" if conv == "none" else "bi"
        spec = rnd_spec(r, n=r.randint(1, 3), types=types, nq=0, nl=0 if conv in ("none", "int") else r.randint(0, 1), wide=1)
        yield {"k": "solve", "spec": spec, "conv": conv, "state": r.choice(["vec", "vec", "dict", "dictfn", "vecfn", "cdict"]),
               "pen": r.choice([None, None, 1.0]), "seed": r.randint(0, 10 ** 6), "sparse": r.random() < .6}
    for t in range(10):
        yield {"k": "fail", "spec": rnd_spec(r, n=2, types="b", nq=0, nl=0)}
    for t in range(60):
        n = r.randint(1, 5)
        yield {"k": "res", "n": n, "x": [r.randint(-3, 4) for _ in range(n)], "seed": r.randint(0, 10 ** 6), "none": r.random() < .2}
    for t in range(30):
        yield {"k": "rej", "kind": r.choice(["cont", "quadc", "float", "badconv"]), "seed": t}


def run(c):
    from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult
    from qiskit.opflow import DictStateFn, VectorStateFn
    from qiskit_optimization import QuadraticProgram, QiskitOptimizationError
    from qiskit_optimization.algorithms import MinimumEigenOptimizer, OptimizationResult, OptimizationResultStatus as ST
    from qiskit_optimization.converters import QuadraticProgramToQubo, IntegerToBinary, InequalityToEquality, LinearEqualityToPenalty

    class Stub(MinimumEigensolver):
        def __init__(self, f):
            self.f = f

        @classmethod
        def supports_aux_operators(cls):
            return True

        def compute_minimum_eigenvalue(self, operator, aux_operators=None):
            res = MinimumEigensolverResult()
            res.eigenstate = self.f(operator.num_qubits)
            res.eigenvalue = 0
            return res

    if c["k"] == "sqrtdict":
        q = QuadraticProgram()
        q.binary_var("x")
        q.minimize(linear={"x": 1})
        res = MinimumEigenOptimizer(Stub(lambda n: {"0": math.sqrt(.75), "1": math.sqrt(.25)})).solve(q)
        p = {tuple(s.x): s.probability for s in res.samples}
        require(close(p[(0,)], .75), "probability of 0 is %s instead of 0.75", p[(0,)])
        return
    if c["k"] == "fail":
        q = build(c["spec"])
        with unchanged(q):
            res = MinimumEigenOptimizer(Stub(lambda n: None)).solve(q)
        require(res.x is None and res.fval is None and res.status == ST.FAILURE, "missing eigenstate: %s", res)
        return
    if c["k"] == "res":
        r = random.Random(c["seed"])
        q = QuadraticProgram()
        for i in range(c["n"]):
            q.integer_var(-5, 5, "v%d" % i)
        res = OptimizationResult(None if c["none"] else c["x"], 1.5, q.variables, ST.SUCCESS)
        require(res.variable_names == ["v%d" % i for i in range(c["n"])] and res.fval == 1.5 and res.status == ST.SUCCESS, "result attributes")
        if c["none"]:
            require(res.x is None and res.variables_dict is None, "x None")
            return
        require(list(res.x) == c["x"] and res.variables_dict == {"v%d" % i: v for i, v in enumerate(c["x"])}, "values %s", res.variables_dict)
        for i, v in enumerate(c["x"]):
            require(res[i] == v and res["v%d" % i] == v, "res[%s]", i)
        require(raises(lambda: res[1.5], TypeError), "float key accepted")
        require(len(res.samples) == 1 and list(res.samples[0].x) == c["x"] and res.samples[0].probability == 1 and res.samples[0].fval == 1.5 and res.samples[0].status == ST.SUCCESS, "default sample")
        for d in (1, -1):
            require(raises(lambda: OptimizationResult([0] * (c["n"] + d), 1.5, q.variables, ST.SUCCESS), QiskitOptimizationError), "wrong size accepted")
        return
    if c["k"] == "rej":
        q = QuadraticProgram()
        q.binary_var("x")
        q.binary_var("y")
        f = Stub(lambda n: np.ones(2 ** n) / math.sqrt(2 ** n))
        if c["kind"] == "badconv":
            require(raises(lambda: MinimumEigenOptimizer(f, converters=[1]), TypeError) and raises(lambda: MinimumEigenOptimizer(f, converters="a"), TypeError), "bad converters accepted")
            return
        if c["kind"] == "cont":
            q.continuous_var(name="z")
        elif c["kind"] == "quadc":
            q.quadratic_constraint({}, {(0, 1): 1}, "<=", 1)
        else:
            q.linear_constraint({"x": 0.5}, "<=", 1)
        opt = MinimumEigenOptimizer(f)
        require(not opt.is_compatible(q) and raises(lambda: opt.solve(q), QiskitOptimizationError), "incompatible accepted")
        return
    spec = c["spec"]
    q = build(spec)
    r = random.Random(c["seed"])

    def conv():
        if c["conv"] == "none":
            return []
        if c["conv"] == "int":
            return [IntegerToBinary()]
        if c["conv"] == "chain":
            return [InequalityToEquality("integer"), IntegerToBinary(), LinearEqualityToPenalty(c["pen"])]
        if c["conv"] == "single":
            return QuadraticProgramToQubo(c["pen"])
        return None
    ref = conv()
    refl = [QuadraticProgramToQubo(c["pen"])] if ref is None else ref if isinstance(ref, list) else [ref]
    p2 = q
    for cv in refl:
        p2 = cv.convert(p2)
    m = p2.get_num_vars()
    if m > 7:
        return
    N = 2 ** m
    amps = np.zeros(N, complex)
    for k in (r.sample(range(N), min(N, r.randint(1, 5))) if c["sparse"] else range(N)):
        amps[k] = complex(r.choice([1, 2, 3, -1, 0.5]), r.choice([0, 0, 1, -2]))
    if N > 2 and c["sparse"] and r.random() < .4:
        amps[r.randrange(N)] += 1e-4
    counts = {format(k, "b").zfill(m): r.randint(1, 50) for k in range(N) if amps[k] != 0}
    amps = amps / np.linalg.norm(amps)
    st = c["state"]
    if st == "vec":
        es, pr = amps, {k: abs(amps[k]) ** 2 for k in range(N)}
    elif st == "vecfn":
        es, pr = VectorStateFn(amps), {k: abs(amps[k]) ** 2 for k in range(N)}
    elif st == "dictfn":
        d = {format(k, "b").zfill(m): abs(amps[k]) for k in range(N) if amps[k] != 0}
        es, pr = DictStateFn(d), {int(k, 2): v ** 2 for k, v in d.items()}
    else:
        es = dict(counts)
        if st == "cdict":
            es[list(es)[0]] += 4000000
        tot = sum(es.values())
        pr = {int(k, 2): v / tot for k, v in es.items()}
    pr = {k: v for k, v in pr.items() if v >= 1e-6}
    opt = MinimumEigenOptimizer(Stub(lambda n: es), penalty=c["pen"], converters=conv())
    with unchanged(q):
        res = opt.solve(q)
    raw = {}
    want, best = {}, None
    for k, p in pr.items():
        y = [(k >> i) & 1 for i in range(m)]
        f = p2.objective.evaluate(y) * spec["sense"]
        x = y
        for cv in refl[::-1]:
            x = cv.interpret(x)
        x = tuple(float(v) for v in x)
        raw[tuple(y)] = (p, f * spec["sense"])
        want[x] = want.get(x, 0) + p
        if best is None or f < best - 1e-9:
            best = f
    require(len(res.raw_samples) == len(raw), "%s raw samples, expected %s", len(res.raw_samples), len(raw))
    for s in res.raw_samples:
        t = tuple(int(v) for v in s.x)
        require(t in raw and close(s.probability, raw[t][0], 1e-6) and close(s.fval, raw[t][1]), "raw sample %s", s)
    fs = [spec["sense"] * s.fval for s in res.raw_samples]
    require(fs == sorted(fs), "raw samples not ordered: %s", fs)
    got = {tuple(float(v) for v in s.x): s for s in res.samples}
    require(len(got) == len(res.samples) and set(got) == set(want), "samples %s expected %s", set(got), set(want))
    keys = []
    for x, s in got.items():
        ok = feasible(spec, x)
        require(close(s.probability, want[x], 1e-6), "probability of %s: %s expected %s", x, s.probability, want[x])
        require(close(s.fval, ev_obj(spec, x)), "value of sample %s: %s expected %s", x, s.fval, ev_obj(spec, x))
        require((s.status == ST.SUCCESS) == ok and (s.status == ST.INFEASIBLE) == (not ok), "status of sample %s: %s", x, s.status)
    for s in res.samples:
        keys.append((0 if feasible(spec, s.x) else 1, spec["sense"] * ev_obj(spec, s.x)))
    require(all(a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1] + 1e-9) for a, b in zip(keys, keys[1:])), "samples not ordered: %s", keys)
    x = tuple(float(v) for v in res.x)
    require(close(res.fval, ev_obj(spec, x)), "fval %s at %s expected %s", res.fval, x, ev_obj(spec, x))
    require((res.status == ST.SUCCESS) == feasible(spec, x), "status %s at %s", res.status, x)
    y0 = res.raw_samples[0].x
    z = y0
    for cv in refl[::-1]:
        z = cv.interpret(z)
    require(tuple(float(v) for v in z) == x and close(res.raw_samples[0].fval * spec["sense"], best), "result is not the best sample")
    require([v.name for v in res.variables] == [v[0] for v in spec["vars"]] and all(res[v[0]] == res.x[i] == res[i] for i, v in enumerate(spec["vars"])), "access by name")
    corr = res.get_correlations()
    n = len(x)
    for i in range(n):
        for j in range(n):
            e = sum(p if X[i] == X[j] else -p for X, p in want.items()) if j < i else 0
            require(close(corr[i, j], e, 1e-6), "correlation %s %s", i, j)
