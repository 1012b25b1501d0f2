"""C11 runtime contracts: from_docplex / to_docplex."""
from common import *

RULE = ("seeded random programs exported to docplex, re-evaluated and imported back; random docplex models with variables on both "
        "sides, repeated terms, unnamed elements, constants; import over a non-empty program; distinct = different JSON case")


def rexpr(r, n, quad):
    e = {"c": r.choice([0, 0, 1, -2.5, 3]), "l": [[r.randrange(n), rnd_coef(r, "dyadic")] for _ in range(r.randint(0, 3))],
         "q": [[r.randrange(n), r.randrange(n), rnd_coef(r, "dyadic")] for _ in range(r.randint(1, 3))] if quad else []}
    return e


def gen(r, tier):
    for t in range(250 if tier == "quick" else 2500):
        spec = rnd_spec(r, types="bic", kind=r.choice(["int", "dyadic"]))
        n = len(spec["vars"])
        for l in spec["lcs"]:
            if not l[1]:
                l[1] = [[r.randrange(n), 2]]
        for l in spec["qcs"]:
            if not l[2]:
                l[2] = [[0, n - 1, 1.5]]
        spec["name"] = r.choice(["", "prob"])
        yield {"k": "out", "spec": spec}
    for t in range(30 if tier == "quick" else 200):
        yield {"k": "flat", "cons": [[r.choice("lq"), r.random() < .5, r.choice(SENSES), r.choice([0, 4, -4, 1.5, -2]), r.random() < .6] for _ in range(r.randint(1, 3))]}
    for t in range(300 if tier == "quick" else 2500):
        n = r.randint(1, 4)
        vs = [[r.choice([None, "v%d" % i, "n%d" % i, "x%d" % (i + 1)]), r.choice("bic"), r.randint(-3, 1), r.randint(1, 5)] for i in range(n)]
        for i, v in enumerate(vs):
            if v[0] and v[0] in [u[0] for u in vs[:i]]:
                v[0] = "w%d" % i
        cons = []
        for k in range(r.randint(0, 4)):
            qd = r.random() < .4
            side = r.choice(["l", "r", "b"]) if qd else ""
            cons.append([rexpr(r, n, qd and side in "lb"), r.choice(SENSES), rexpr(r, n, qd and side in "rb"), r.choice([None, "con%d" % k]), r.random() < .2])
        yield {"k": "in", "vars": vs, "min": r.random() < .5, "obj": rexpr(r, n, r.random() < .6), "justvar": r.random() < .15, "cons": cons, "pre": r.random() < .4}
    for kind in ("neq", "ind", "equiv", "logical", "semi", "semiint", "abs"):
        for _ in range(3):
            yield {"k": "reject", "kind": kind, "s": _}


def ex(e, v):
    out = e["c"]
    for i, a in e["l"]:
        out = out + a * v[i]
    for i, j, a in e["q"]:
        out = out + a * v[i] * v[j]
    return out


def val(e, x):
    return ex(e, x)


def run(c):
    from docplex.mp.model import Model
    from qiskit_optimization import QuadraticProgram, QiskitOptimizationError
    if c["k"] == "flat":            # constraints without variables
        import numpy as np
        q = QuadraticProgram()
        q.binary_var("x")
        for k, (kind, terms, sense, rhs, npy) in enumerate(c["cons"]):
            rhs = np.float64(rhs) if npy else rhs
            if kind == "l":
                q.linear_constraint({"x": 2} if terms else {}, sense, rhs, "c%d" % k)
            else:
                q.quadratic_constraint({"x": 2} if terms else {}, {("x", "x"): 3} if terms else {}, sense, rhs, "c%d" % k)
        with unchanged(q):
            mdl = q.to_docplex()
            q.export_as_lp_string()
        p = QuadraticProgram()
        p.from_docplex(mdl)
        got = {x.name: x for x in p.linear_constraints + p.quadratic_constraints}
        require(set(got) <= {"c%d" % k for k in range(len(c["cons"]))}, "constraints %s", sorted(got))
        for k, (kind, terms, sense, rhs, npy) in enumerate(c["cons"]):
            x = got.get("c%d" % k)
            if x is None:
                require(not terms and (0 == rhs if sense == "==" else 0 <= rhs if sense == "<=" else 0 >= rhs), "constraint c%d lost", k)
                continue
            lhs = (2 if kind == "l" else 5) if terms else 0
            require({"EQ": "==", "LE": "<=", "GE": ">="}[x.sense.name] == sense and close(x.evaluate([1]) - x.rhs, lhs - rhs) and close(x.evaluate([0]) - x.rhs, -rhs), "constraint c%d", k)
        return
    if c["k"] == "out":
        q = build(c["spec"])
        with unchanged(q):
            mdl = q.to_docplex()
        q2 = QuadraticProgram("other")
        q2.integer_var(1, 2, "old")
        q2.linear_constraint({"old": 1}, "<=", 1, "oldc")
        q2.from_docplex(mdl)
        a, b = view(q), coherent(q2)
        same_view(a, b, "docplex round trip")
        dv = {v.name: v for v in mdl.iter_variables()}
        require([v.name for v in mdl.iter_variables()] == [v[0] for v in a["vars"]], "docplex variables")
        for nme, t, lb, ub in a["vars"]:
            require(dv[nme].vartype.cplex_typecode == {"b": "B", "i": "I", "c": "C"}[t] and dv[nme].lb == lb and dv[nme].ub == ub, "docplex variable %s", nme)
        return
    mdl = Model("m")
    if c["k"] == "reject":
        x, y = mdl.binary_var("x"), mdl.integer_var(0, 5, "y")
        mdl.minimize(x + y)
        mdl.add_constraint(x + y <= 3)
        k = c["kind"]
        if k == "neq":
            mdl.add_constraint(x + y != 2)
        elif k == "ind":
            mdl.add_indicator(x, y >= 2)
        elif k == "equiv":
            mdl.add_equivalence(x, y >= 2)
        elif k == "logical":
            mdl.add(mdl.logical_or(y >= 3, x >= 1) == 1) if False else mdl.add(mdl.if_then(x >= 1, y >= 2))
        elif k == "semi":
            mdl.semicontinuous_var(1, 5, "s")
        elif k == "semiint":
            mdl.semiinteger_var(1, 5, "s")
        else:
            mdl.minimize(mdl.abs(x - y)) if False else mdl.add_indicator(x, y == 2)
        require(raises(lambda: QuadraticProgram().from_docplex(mdl), QiskitOptimizationError), "%s accepted", k)
        return
    vs = []
    for name, t, lb, ub in c["vars"]:
        vs.append(mdl.binary_var(name) if t == "b" else (mdl.integer_var if t == "i" else mdl.continuous_var)(lb, ub, name))
    n = len(vs)
    obj = vs[-1] if c["justvar"] else ex(c["obj"], vs)
    (mdl.minimize if c["min"] else mdl.maximize)(obj)
    lin, quad = [], []
    for le, s, re_, name, bare in c["cons"]:
        L, R = ex(le, vs), ex(re_, vs)
        if bare and not (le["q"] or re_["q"]):
            L = vs[0]
            le = {"c": 0, "l": [[0, 1]], "q": []}
        if isinstance(L, (int, float)) and isinstance(R, (int, float)):
            continue
        if isinstance(L, (int, float)):
            L = L + 0 * vs[0]
        ct = mdl.add_constraint(L <= R if s == "<=" else L >= R if s == ">=" else L == R, name)
        (quad if le["q"] or re_["q"] else lin).append((le, s, re_, name))
    if sum(1 for _ in mdl.iter_quadratic_constraints()) != len(quad):
        return  # docplex itself drops a quadratic constraint whose quadratic parts cancel
    q = QuadraticProgram()
    if c["pre"]:
        q.binary_var("v0")
        q.continuous_var(name="zz")
        q.maximize(3, {"zz": 1}, {("v0", "zz"): 2})
        q.linear_constraint({"zz": 1}, "<=", 1, "con0")
        q.quadratic_constraint({}, {("v0", "zz"): 1}, "<=", 1, "q0")
    q.from_docplex(mdl)
    w = coherent(q)
    require(w["name"] == "m" and w["status"] == "VALID", "name/status")
    require(len(w["vars"]) == n, "number of variables")
    for got, (name, t, lb, ub) in zip(w["vars"], c["vars"]):
        require((name is None or got[0] == name) and got[1] == t and (t == "b" or (got[2], got[3]) == (lb, ub)), "variable %s became %s", (name, t, lb, ub), got)
    require(w["sense"] == (1 if c["min"] else -1), "sense")
    require(len(w["lcs"]) == len(lin) and len(w["qcs"]) == len(quad), "number of constraints %s %s", w["lcs"], w["qcs"])
    r = random.Random(1)
    for _ in range(8):
        x = rnd_point(r, n)
        want = x[-1] if c["justvar"] else val(c["obj"], x)
        require(close(ev_obj(w, x), want), "objective at %s: %s expected %s", x, ev_obj(w, x), want)
        for kind, gots, olds in (("lcs", w["lcs"], lin), ("qcs", w["qcs"], quad)):
            for got, (le, s, re_, name) in zip(gots, olds):
                # docplex itself mirrors "constant <= expression": compare up to that orientation
                sg = 1 if got[-2] == s else -1
                require((name is None or got[0] == name) and (got[-2] == s or got[-2] == {"<=": ">=", ">=": "<="}.get(s)), "constraint %s became %s", (s, name), got)
                lhs = ev_lin(got[1], x) + (ev_quad(got[2], x) if kind == "qcs" else 0) - got[-1]
                d = val(le, x) - val(re_, x)
                require(close(lhs, sg * d) or (s == "==" and close(lhs, -d)), "constraint %s at %s: %s expected %s", got, x, lhs, d)
