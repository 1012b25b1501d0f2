"""C09 runtime contracts: QuadraticProgramToQubo."""
from common import *
import numpy as np

RULE = ("seeded random small programs with linear constraints, all QUBO points enumerated: feasible encodings carry the original "
        "value, all others are strictly worse than the best; incompatible programs rejected; reused instances; distinct = JSON case")


def bits(spec):
    n = 0
    for _, t, lb, ub in spec["vars"]:
        n += 1 if t == "b" else max(1, int(ub - lb).bit_length())
    for _, l, s, rhs in spec["lcs"]:
        if s != "==":
            lo = sum(min(v * spec["vars"][i][2], v * spec["vars"][i][3]) for i, v in l)
            hi = sum(max(v * spec["vars"][i][2], v * spec["vars"][i][3]) for i, v in l)
            ub = (math.floor(rhs) - lo) if s == "<=" else hi - math.ceil(rhs)
            if ub > 0:
                n += int(ub).bit_length()
    return n


def gen(r, tier):
    made = 0
    total = 700 if tier == "quick" else 1500
    while made < total:
        spec = rnd_spec(r, n=r.randint(1, 3), types="bi", nq=0, nl=r.randint(0, 2), wide=2, rhs_float=r.random() < .3)
        if r.random() < .5:
            # right-hand sides near an attained value, so that the constraint cuts and rounding matters
            for l in spec["lcs"]:
                x = [r.randint(v[2], v[3]) for v in spec["vars"]]
                l[3] = ev_lin(l[1], x) + (0 if l[2] == "==" else r.choice([0, .5, -.5, .25, -.25, .75]))
        if spec["lcs"] and r.random() < .3:
            for l in spec["lcs"]:
                l[3] = math.floor(l[3]) if l[2] == "==" else l[3]
        for l in spec["lcs"]:
            if l[2] == "==":
                l[3] = int(math.floor(l[3]))
        if bits(spec) > (9 if tier == "quick" else 11):
            continue
        made += 1
        yield {"k": "qubo", "spec": spec, "pen": r.choice([None, None, None, 50.0]),
               "prev": rnd_spec(r, n=2, types="bi", nq=0, nl=1, wide=1) if r.random() < .4 else None}
    for t in range(60):
        kind = r.choice(["cont", "quadc", "float"])
        spec = rnd_spec(r, n=3, types="bi", nq=0, nl=1)
        if kind == "cont":
            spec["vars"][r.randint(0, 2)][1] = "c"
        elif kind == "quadc":
            spec["qcs"] = [["qc", [], [[0, 1, 1]], r.choice(SENSES), 1]]
        else:
            spec["lcs"] = [["c", [[0, 1], [2, r.choice([0.5, -1.25])]], r.choice(["<=", ">="]), 1]]
        yield {"k": "reject", "spec": spec}


def run(c):
    from qiskit_optimization import QiskitOptimizationError
    from qiskit_optimization.converters import QuadraticProgramToQubo
    spec = c["spec"]
    q = build(spec)
    if c["k"] == "reject":
        conv = QuadraticProgramToQubo()
        with unchanged(q):
            require(not conv.is_compatible(q) and len(conv.get_compatibility_msg(q)) > 0, "reported compatible")
            require(raises(lambda: conv.convert(q), QiskitOptimizationError), "incompatible program accepted")
        return
    conv = QuadraticProgramToQubo(penalty=c["pen"])
    if c["prev"]:
        conv.convert(build(c["prev"]))
    require(conv.is_compatible(q), "reported incompatible: %s", conv.get_compatibility_msg(q))
    with unchanged(q):
        res = conv.convert(q)
    w = coherent(res)
    require(all(v[1] == "b" for v in w["vars"]) and not w["lcs"] and not w["qcs"], "not a QUBO: %s", w["vars"])
    require(w["sense"] == spec["sense"], "sense changed")
    fresh = QuadraticProgramToQubo(penalty=c["pen"])
    wf = view(fresh.convert(q))
    same_view(wf, w, "reused converter differs from a fresh one")
    require(fresh.penalty == conv.penalty, "penalty differs from fresh")
    n = len(w["vars"])
    A = res.objective.quadratic.to_array()
    b = res.objective.linear.to_array()
    feas_orig = {}
    for x in grid(spec):
        if feasible(spec, x):
            feas_orig[tuple(float(v) for v in x)] = ev_obj(spec, x)
    seen, vals, best_f = {}, [], None
    for y in itertools.product([0, 1], repeat=n):
        ya = np.array(y, float)
        val = w["const"] + b @ ya + ya @ A @ ya
        x = tuple(float(v) for v in conv.interpret(list(y)))
        vals.append((spec["sense"] * val, x))
        if x in feas_orig and (x not in seen or spec["sense"] * val < seen[x]):
            seen[x] = spec["sense"] * val
    require(len(x) == len(spec["vars"]), "interpret size")
    require(set(seen) == set(feas_orig), "feasible points %s are not encoded", set(feas_orig) - set(seen))
    if c["pen"] is None and feas_orig:
        for x, v in seen.items():
            require(close(v, spec["sense"] * feas_orig[x]), "feasible %s encoded with value %s expected %s", x, v, spec["sense"] * feas_orig[x])
        best = min(v for v, _ in vals)
        opt = min(spec["sense"] * v for v in feas_orig.values())
        require(close(best, opt), "QUBO optimum %s, problem optimum %s", best, opt)
        for v, x in vals:
            if close(v, best):
                require(x in feas_orig and close(spec["sense"] * feas_orig[x], opt), "QUBO optimum decodes to %s", x)
    require(raises(lambda: conv.interpret([0] * (n + 1)), QiskitOptimizationError), "interpret accepted a wrong size")
