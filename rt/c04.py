"""C04 runtime contracts: feasibility reports."""
import numpy as np
from common import *

RULE = "random programs (all variable types, senses, linear and quadratic constraints) x random and boundary points"


def gen(r, tier):
    for t in range(1500 if tier == "quick" else 12000):
        s = rnd_spec(r, kind=r.choice(["int", "dyadic"]), rhs_float=True)
        n = len(s["vars"])
        x = []
        for _, vt, lb, ub in s["vars"]:
            x.append(r.choice([lb, ub, lb - 1, ub + 1, (lb + ub) / 2, lb - .25, ub + .25, lb, ub]))
        # aim some constraints exactly at / just off their boundary
        for c in s["lcs"]:
            if r.random() < .6:
                c[3] = ev_lin(c[1], x) + r.choice([0, 0, .25, -.25, 1e-3, -1e-3])
        for c in s["qcs"]:
            if r.random() < .6:
                c[4] = ev_lin(c[1], x) + ev_quad(c[2], x) + r.choice([0, 0, .25, -.25, 1e-3, -1e-3])
        yield {"k": "feas", "spec": s, "x": x, "arr": r.random() < .5}


def run(c):
    from qiskit_optimization import QiskitOptimizationError
    s, x = c["spec"], c["x"]
    q = build(s)
    p = np.array(x, dtype=float) if c["arr"] else list(x)
    with unchanged(q):
        f, vv, vc = q.get_feasibility_info(p)
        f2 = q.is_feasible(p)
    ev = [v[0] for v, xi in zip(s["vars"], x) if not v[2] <= xi <= v[3]]
    ec = [("l", l[0]) for l in s["lcs"] if not sat(ev_lin(l[1], x), l[2], l[3], 1e-12)]
    ec += [("q", k[0]) for k in s["qcs"] if not sat(ev_lin(k[1], x) + ev_quad(k[2], x), k[3], k[4], 1e-12)]
    gc = [("q" if hasattr(k, "quadratic") else "l", k.name) for k in vc]
    require([v.name for v in vv] == ev, "violated variables %s expected %s", [v.name for v in vv], ev)
    require(gc == ec, "violated constraints %s expected %s", gc, ec)
    require(all(any(v is w for w in q.variables) for v in vv), "reported variables are not the program's")
    require(bool(f) == (not ev and not ec) and bool(f2) == bool(f), "feasible = %s/%s", f, f2)
    require(list(p) == list(x), "point modified")
    require(raises(lambda: q.get_feasibility_info(list(x) + [0]), QiskitOptimizationError), "longer point accepted")
    require(raises(lambda: q.is_feasible(list(x)[:-1]), QiskitOptimizationError), "shorter point accepted")
