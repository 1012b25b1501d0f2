"""C14 runtime contracts: classical optimizers (COBYLA, SLSQP, CPLEX) and multi start."""
from common import *
import numpy as np
import scipy.optimize as so

RULE = ("the scipy back ends are wrapped before import: seeded random continuous programs, objective/gradient/constraint functions handed "
        "over are compared with the program at sampled points, scripted trial results check the selection; CPLEX results compared "
        "with enumeration; distinct = different JSON case")
HOOK = {"slsqp": None, "cobyla": None}
_slsqp, _cobyla = so.fmin_slsqp, so.fmin_cobyla


def _w_slsqp(*a, **k):
    return HOOK["slsqp"](*a, **k) if HOOK["slsqp"] else _slsqp(*a, **k)


def _w_cobyla(*a, **k):
    return HOOK["cobyla"](*a, **k) if HOOK["cobyla"] else _cobyla(*a, **k)


so.fmin_slsqp, so.fmin_cobyla = _w_slsqp, _w_cobyla


def gen(r, tier):
    for t in range(260 if tier == "quick" else 2500):
        spec = rnd_spec(r, n=r.randint(1, 4), types="c", kind=r.choice(["int", "dyadic"]), rhs_float=True)
        for v in spec["vars"]:
            if r.random() < .3:
                v[2] = None
            if r.random() < .3:
                v[3] = None
        yield {"k": r.choice(["slsqp", "cobyla"]), "spec": spec, "trials": r.randint(1, 4), "seed": r.randint(0, 10 ** 6), "full": r.random() < .4,
               "tie": r.random() < .2}
    for t in range(30):
        spec = rnd_spec(r, n=3, types="bic")
        if all(v[1] == "c" for v in spec["vars"]):
            spec["vars"][0][1] = "i"
        yield {"k": "rej", "spec": spec}
    for t in range(60 if tier == "quick" else 400):
        yield {"k": "cplex", "spec": rnd_spec(r, n=r.randint(1, 3), types="bi", nq=0, wide=2, nl=r.randint(0, 2), quad_obj=r.random() < .4)}
    for t in range(20):
        yield {"k": "real", "seed": t, "which": r.choice(["slsqp", "cobyla"]), "sense": r.choice([1, -1]), "trials": r.randint(1, 3)}


INF = 1e20


def run(c):
    from qiskit_optimization import QuadraticProgram, QiskitOptimizationError
    from qiskit_optimization.algorithms import CobylaOptimizer, SlsqpOptimizer, CplexOptimizer, OptimizationResultStatus as ST
    HOOK["slsqp"] = HOOK["cobyla"] = None
    if c["k"] == "rej":
        q = build(c["spec"])
        for o in (CobylaOptimizer(), SlsqpOptimizer()):
            require(not o.is_compatible(q) and raises(lambda: o.solve(q), QiskitOptimizationError), "discrete variables accepted by %s", type(o).__name__)
        return
    if c["k"] == "real":
        q = QuadraticProgram()
        q.continuous_var(-1, 2, "x")
        q.continuous_var(0, 3, "y")
        s = c["sense"]
        (q.minimize if s == 1 else q.maximize)(1, {"x": s, "y": -2 * s}, {("x", "x"): s, ("y", "y"): s})
        q.linear_constraint({"x": 1, "y": 1}, "<=", 2)
        res = (SlsqpOptimizer if c["which"] == "slsqp" else CobylaOptimizer)(trials=c["trials"]).solve(q)
        require(abs(res.x[0] + 0.5) < 1e-2 and abs(res.x[1] - 1) < 1e-2 and close(res.fval, q.objective.evaluate(res.x)), "optimum %s", res)
        return
    spec = c["spec"]
    if c["k"] == "cplex":
        q = build(spec)
        pts = [x for x in grid(spec) if feasible(spec, x)]
        if not pts:
            return
        with unchanged(q):
            try:
                res = CplexOptimizer().solve(q)
            except QiskitOptimizationError:
                return
        best = min(spec["sense"] * ev_obj(spec, x) for x in pts)
        xr = [round(v) for v in res.x]
        require(all(abs(a - b) < 1e-5 for a, b in zip(res.x, xr)), "fractional %s", res.x)
        require(close(res.fval, ev_obj(spec, xr), 1e-5), "fval %s at %s expected %s", res.fval, xr, ev_obj(spec, xr))
        require(feasible(spec, xr) and close(spec["sense"] * res.fval, best, 1e-5), "not optimal: %s expected %s", res.fval, best)
        return
    s2 = dict(spec)
    s2["vars"] = [[n, t, -INF if lb is None else lb, INF if ub is None else ub] for n, t, lb, ub in spec["vars"]]
    spec = s2
    q = build(spec)
    n = len(spec["vars"])
    r = random.Random(c["seed"])
    starts, outs, called = [], [], []

    def out():
        x = np.array(rnd_point(r, n), float)
        if c["tie"] and outs:
            x = outs[0].copy()
        outs.append(x)
        return x
    pts = [np.array(rnd_point(r, n), float) for _ in range(6)]

    def check_obj(f):
        for x in pts:
            require(close(f(x), spec["sense"] * ev_obj(spec, x)), "back-end objective at %s: %s expected %s", x, f(x), spec["sense"] * ev_obj(spec, x))

    def viol(x, eqt=0):
        """signed satisfaction of every constraint, in any order"""
        return all(sat(ev_lin(l, x), s, rhs, 0) for _, l, s, rhs in spec["lcs"]) and all(sat(ev_lin(l, x) + ev_quad(k, x), s, rhs, 0) for _, l, k, s, rhs in spec["qcs"])

    def slsqp(func, x0, eqcons=(), f_eqcons=None, ieqcons=(), f_ieqcons=None, bounds=(), fprime=None, *a, **k):
        called.append(1)
        starts.append(np.array(x0))
        check_obj(func)
        if fprime is not None:
            for x in pts:
                g = np.asarray(fprime(x))
                for i in range(n):
                    h = np.zeros(n)
                    h[i] = 1
                    want = spec["sense"] * (ev_obj(spec, x + h) - ev_obj(spec, x - h)) / 2
                    require(close(g[i], want), "gradient %s at %s, expected %s at %s", g, x, want, i)
        require([(float(a), float(b)) for a, b in bounds] == [(float(v[2]), float(v[3])) for v in spec["vars"]], "bounds %s", bounds)
        for x in pts:
            ok = all(abs(f(x)) < 1e-12 for f in eqcons) and all(f(x) >= 0 for f in ieqcons)
            require(ok == viol(x), "constraints at %s: handed over %s, program %s", x, ok, viol(x))
            for f in list(eqcons):
                require(any(close(abs(f(x)), abs(ev_lin(l[1], x) + (ev_quad(l[2], x) if len(l) == 5 else 0) - l[-1])) for l in spec["lcs"] + spec["qcs"] if l[-2] == "=="), "eq function")
        require(len(eqcons) == sum(l[-2] == "==" for l in spec["lcs"] + spec["qcs"]) and len(ieqcons) == sum(l[-2] != "==" for l in spec["lcs"] + spec["qcs"]), "number of constraint functions")
        x = out()
        return (x, 0.0, 7, 0, "msg") if k.get("full_output") else x

    def cobyla(func, x0, cons, *a, **k):
        called.append(1)
        starts.append(np.array(x0))
        check_obj(func)
        for x in pts:
            ok = all(f(x) >= 0 for f in cons)
            want = viol(x) and all(v[2] <= t <= v[3] for v, t in zip(spec["vars"], x))
            require(ok == want, "constraints at %s: handed over %s, program %s", x, ok, want)
        vals = sorted(float(f(pts[0])) for f in cons)
        exp = []
        for v, t in zip(spec["vars"], pts[0]):
            exp += ([t - v[2]] if v[2] > -INF else []) + ([v[3] - t] if v[3] < INF else [])
        for l in spec["lcs"] + spec["qcs"]:
            d = ev_lin(l[1], pts[0]) + (ev_quad(l[2], pts[0]) if len(l) == 5 else 0) - l[-1]
            exp += [-d, d] if l[-2] == "==" else [-d] if l[-2] == "<=" else [d]
        require(len(vals) == len(exp) and np.allclose(vals, sorted(exp)), "constraint functions %s expected %s", vals, sorted(exp))
        return out()
    HOOK["slsqp"], HOOK["cobyla"] = slsqp, cobyla
    try:
        np.random.seed(c["seed"] % 1000)
        with unchanged(q):
            opt = SlsqpOptimizer(trials=c["trials"], full_output=c["full"]) if c["k"] == "slsqp" else CobylaOptimizer(trials=c["trials"])
            res = opt.solve(q)
    finally:
        HOOK["slsqp"] = HOOK["cobyla"] = None
    if not called:
        return
    require(len(outs) == c["trials"], "%s trials instead of %s", len(outs), c["trials"])
    for x0 in starts[1:]:
        require(all((v[2] if v[2] > -INF else -100) <= t <= (v[3] if v[3] < INF else 100) for v, t in zip(spec["vars"], x0)), "start %s outside of the box", x0)
    best = min(outs, key=lambda x: spec["sense"] * ev_obj(spec, x))
    require(close(spec["sense"] * res.fval, spec["sense"] * ev_obj(spec, best)), "fval %s, best trial %s of %s", res.fval, ev_obj(spec, best), outs)
    require(close(ev_obj(spec, res.x), res.fval), "fval %s is not the objective at %s", res.fval, res.x)
    ok = viol(res.x) and all(v[2] <= t <= v[3] for v, t in zip(spec["vars"], res.x))
    require((res.status == ST.SUCCESS) == ok, "status %s at %s", res.status, res.x)
