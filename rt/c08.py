"""C08 runtime contracts: LinearEqualityToPenalty."""
from common import *

RULE = ("seeded random equality-constrained programs (min/max, given or automatic penalty, negative/fractional coefficients, "
        "several constraints on the same variables, reused instances), objective compared at all/sampled points with "
        "objective + sense*penalty*sum of squared residuals; distinct = different JSON case")


def gen(r, tier):
    for t in range(700 if tier == "quick" else 6000):
        auto = r.random() < .5
        kind = "int" if r.random() < .7 else "dyadic"
        spec = rnd_spec(r, n=r.randint(1, 4), types="b" if auto else r.choice(["b", "bic", "i"]), kind=kind, nq=0, senses=("==",),
                        wide=2, nl=r.randint(0, 3), rhs_float=r.random() < .2)
        prev = rnd_spec(r, n=2, types="b", nq=0, nl=1, senses=("==",), kind="int") if r.random() < .5 else None
        yield {"k": "pen", "spec": spec, "pen": None if auto else r.choice([1, 2.5, 100, 7, 0.5]), "prev": prev,
               "how": r.choice(["ctor", "setter"]), "seed": r.randint(0, 10 ** 6)}
    for t in range(40):
        spec = rnd_spec(r, n=3, types="b", nq=0, nl=2, senses=("==",))
        spec["lcs"][r.randint(0, 1)][2] = r.choice(["<=", ">="])
        yield {"k": "reject", "spec": spec}


def run(c):
    from qiskit_optimization import QiskitOptimizationError
    from qiskit_optimization.converters import LinearEqualityToPenalty
    spec = c["spec"]
    q = build(spec)
    if c["k"] == "reject":
        with unchanged(q):
            require(raises(lambda: LinearEqualityToPenalty(5).convert(q), QiskitOptimizationError), "inequality accepted")
            require(raises(lambda: LinearEqualityToPenalty().convert(q), QiskitOptimizationError), "inequality accepted")
        return
    conv = LinearEqualityToPenalty(c["pen"]) if c["how"] == "ctor" else LinearEqualityToPenalty(3.0 if c["pen"] is None else None)
    if c["how"] == "setter":
        conv.penalty = c["pen"]
    if c["prev"]:
        conv.convert(build(c["prev"]))
        require(conv.penalty == c["pen"] or c["pen"] is None, "given penalty replaced by %s", conv.penalty)
    with unchanged(q):
        res = conv.convert(q)
    w, v0 = coherent(res), view(q)
    require(w["vars"] == v0["vars"] and w["name"] == v0["name"] and w["sense"] == v0["sense"], "variables/name/sense changed")
    require(not w["lcs"] and not w["qcs"], "constraints left")
    pen = conv.penalty
    require(pen is not None and (c["pen"] is None or pen == c["pen"]), "reported penalty %s, given %s", pen, c["pen"])
    integral = all(float(v).is_integer() for l in spec["lcs"] for _, v in l[1]) and all(float(l[-1]).is_integer() for l in spec["lcs"])
    if c["pen"] is None:
        fresh = LinearEqualityToPenalty()
        fresh.convert(q)
        require(fresh.penalty == pen, "penalty %s depends on history (fresh: %s)", pen, fresh.penalty)
    pts = list(grid(spec, 3))
    r = random.Random(c["seed"])
    if len(pts) > 100:
        pts = r.sample(pts, 100)
    feas, infeas = [], []
    for x in pts:
        res2 = sum((ev_lin(l, x) - rhs) ** 2 for _, l, _, rhs in spec["lcs"])
        want = ev_obj(spec, x) + spec["sense"] * pen * res2
        got = res.objective.evaluate(list(x))
        require(close(got, want), "objective at %s: %s expected %s", x, got, want)
        (feas if all(ev_lcs(spec, x)) else infeas).append(spec["sense"] * got)
        require(list(conv.interpret(list(x))) == list(x), "interpret changed %s", x)
    if c["pen"] is None and integral and feas and infeas:
        require(min(infeas) > max(feas) - 1e-12 and min(infeas) - max(feas) > 1e-9, "penalty %s too small: infeasible %s feasible %s", pen, min(infeas), max(feas))
    n = len(spec["vars"])
    require(raises(lambda: conv.interpret([0] * (n + 1)), QiskitOptimizationError), "interpret accepted wrong size")
    require(raises(lambda: conv.interpret([0] * (n - 1)), QiskitOptimizationError), "interpret accepted wrong size")
