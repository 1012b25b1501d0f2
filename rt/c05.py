"""C05 runtime contracts: substitute_variables."""
from common import *

RULE = ("seeded random programs with constants/variable substitutions (negative and fractional multipliers, by name or "
        "index, infinite bounds, several variables mapped on one, constraints that vanish, name clashes), all grid points "
        "compared with the original at the extended point; distinct = different JSON case")


def gen(r, tier):
    for t in range(700 if tier == "quick" else 6000):
        n = r.randint(2, 4)
        spec = rnd_spec(r, n=n, types=r.choice(["b", "i", "c", "bic"]), wide=3)
        if r.random() < .15:
            for v in spec["vars"]:
                if v[1] == "c" and r.random() < .5:
                    v[2 + r.randint(0, 1)] = None
        if r.random() < .4 and spec["qcs"] and spec["lcs"]:
            spec["qcs"][0][0] = spec["lcs"][0][0]
            if r.random() < .5:
                spec["lcs"].append(["_" + spec["lcs"][0][0], [[0, 1]], "<=", 5])
        order = list(range(n))
        r.shuffle(order)
        k = r.randint(1, n)
        subs, keep = order[:k], order[k:]
        consts, vs = {}, {}
        for i in subs:
            if keep and r.random() < .5:
                vs[i] = [r.choice(keep), r.choice([1, -1, 2, -2, 0.5, -0.5, 3])]
            else:
                consts[i] = r.choice([0, 1, -1, 2, 0.5])
        yield {"k": "subst", "spec": spec, "consts": [[i, v] for i, v in consts.items()],
               "vars": [[i, j, v] for i, (j, v) in vs.items()], "byname": r.choice([0, 1])}
    for t in range(80):
        spec = rnd_spec(r, n=4, types="bic")
        kind = r.choice(["twice", "zero", "self", "chain", "chain2"])
        yield {"k": "reject", "spec": spec, "kind": kind, "perm": r.sample(range(4), 4), "byname": r.choice([0, 1])}


INF = 1e20


def bspec(spec):
    s = dict(spec)
    s["vars"] = [[n, t, -INF if lb is None else lb, INF if ub is None else ub] for n, t, lb, ub in spec["vars"]]
    return s


def run(c):
    from qiskit_optimization import QuadraticProgram, QiskitOptimizationError
    spec = bspec(c["spec"])
    q = build(spec)
    n = len(spec["vars"])
    nm = (lambda i: spec["vars"][i][0]) if c["byname"] else (lambda i: i)
    if c["k"] == "reject":
        a, b, d, e = c["perm"]
        kw = {"twice": dict(constants={nm(a): 1}, variables={nm(a): (nm(b), 1)}),
              "zero": dict(variables={nm(a): (nm(b), 0)}), "self": dict(variables={nm(a): (nm(a), 2)}),
              "chain": dict(variables={nm(a): (nm(b), 1), nm(b): (nm(d), 1)}),
              "chain2": dict(variables={nm(b): (nm(d), 1), nm(a): (nm(b), 1)}, constants={nm(e): 0})}[c["kind"]]
        with unchanged(q):
            require(raises(lambda: q.substitute_variables(**kw), QiskitOptimizationError), "invalid substitution %s accepted", kw)
        return
    consts = {nm(i): v for i, v in c["consts"]}
    vs = {nm(i): (nm(j), v) for i, j, v in c["vars"]}
    with unchanged(q):
        res = q.substitute_variables(consts or None, vs or None) if c["byname"] else q.substitute_variables(constants=consts, variables=vs)
    w = coherent(res)
    sub = {i: ("c", v, None) for i, v in c["consts"]}
    sub.update({i: ("v", v, j) for i, j, v in c["vars"]})
    keep = [i for i in range(n) if i not in sub]
    require([v[0] for v in w["vars"]] == [spec["vars"][i][0] for i in keep], "remaining variables %s", w["vars"])
    require([v[1] for v in w["vars"]] == [spec["vars"][i][1] for i in keep], "types changed")
    require(w["sense"] == spec["sense"] and w["name"] == q.name, "sense/name changed")
    # expected bounds
    bad = False
    lb = {i: spec["vars"][i][2] for i in keep}
    ub = {i: spec["vars"][i][3] for i in keep}
    for i, (k, v, j) in sub.items():
        l, u = spec["vars"][i][2], spec["vars"][i][3]
        if k == "c":
            bad |= not (l <= v <= u)
        else:
            a, b = (l / v if l > -INF else (-INF if v > 0 else INF)), (u / v if u < INF else (INF if v > 0 else -INF))
            if v < 0:
                a, b = b, a
            lb[j], ub[j] = max(lb[j], a), min(ub[j], b)
    badb = any(lb[i] > ub[i] for i in keep)
    bad |= badb
    if not badb:
        for i, (_, _, l, u) in zip(keep, w["vars"]):
            require(close(l, lb[i]) and close(u, ub[i]), "bounds of %s: [%s,%s] expected [%s,%s]", spec["vars"][i][0], l, u, lb[i], ub[i])

    def ext(y):
        x = [None] * n
        for i, v in zip(keep, y):
            x[i] = v
        for i, (k, v, j) in sub.items():
            x[i] = v if k == "c" else v * x[j]
        return x
    # constraints: expected reduced polynomials
    def red(lin, quad):
        const, L, Q = 0.0, {}, {}
        for i, v in lin:
            k = sub.get(i, ("v", 1, i))
            if k[0] == "c":
                const += v * k[1]
            else:
                L[k[2]] = L.get(k[2], 0) + v * k[1]
        for i, j, v in quad:
            a, b = sub.get(i, ("v", 1, i)), sub.get(j, ("v", 1, j))
            p = v * a[1] * b[1]
            if a[0] == "c" and b[0] == "c":
                const += p
            elif a[0] == "c":
                L[b[2]] = L.get(b[2], 0) + p
            elif b[0] == "c":
                L[a[2]] = L.get(a[2], 0) + p
            else:
                t = (min(a[2], b[2]), max(a[2], b[2]))
                Q[t] = Q.get(t, 0) + p
        return const, {k: v for k, v in L.items() if v}, {k: v for k, v in Q.items() if v}
    pos = {i: k for k, i in enumerate(keep)}
    exp_l, exp_q = [], []
    for name, l, s, rhs in spec["lcs"]:
        k, L, Q = red(l, [])
        if L:
            exp_l.append((name, L, {}, s, rhs - k))
        else:
            bad |= not sat(0, s, rhs - k, 0)
    taken = {e[0] for e in exp_l}
    for name, l, qq, s, rhs in spec["qcs"]:
        k, L, Q = red(l, qq)
        if Q:
            exp_q.append((name, L, Q, s, rhs - k))
        elif L:
            exp_l.append((name, L, {}, s, rhs - k))
        else:
            bad |= not sat(0, s, rhs - k, 0)
    require((w["status"] == "INFEASIBLE") == bad, "status %s but contradictory=%s", w["status"], bad)

    def cmp(e, name, lin, quad, s, rhs, what, first):
        require(name == e[0] or (not first and name.endswith(e[0]) and set(name[:-len(e[0])]) <= {"_"}), "%s name %s expected %s", what, name, e[0])
        require(s == e[3] and close(rhs, e[4]), "%s %s: %s %s expected %s %s", what, name, s, rhs, e[3], e[4])
        require({i: v for i, v in lin} == {pos[i]: v for i, v in e[1].items()}, "%s %s: linear %s expected %s", what, name, lin, e[1])
        require({(i, j): v for i, j, v in quad} == {(pos[i], pos[j]): v for (i, j), v in e[2].items()}, "%s %s quad %s", what, name, quad)
    require(len(w["lcs"]) == len(exp_l) and len(w["qcs"]) == len(exp_q), "number of constraints %s/%s expected %s/%s",
            len(w["lcs"]), len(w["qcs"]), len(exp_l), len(exp_q))
    for e, (name, l, s, rhs) in zip(exp_l, w["lcs"]):
        cmp(e, name, l, [], s, rhs, "linear constraint", e[0] in taken and False)
    for e, (name, l, qq, s, rhs) in zip(exp_q, w["qcs"]):
        cmp(e, name, l, qq, s, rhs, "quadratic constraint", True)
    doms = [(-1, 0, 1, 2, 0.5)[:3 if len(keep) > 2 else 5]] * len(keep)
    for y in itertools.product(*doms):
        x = ext(y)
        require(close(res.objective.evaluate(list(y)) if keep else w["const"], ev_obj(spec, x), 1e-9), "objective at %s", y)
        if keep:
            for (name, l, s, rhs), e in zip(w["lcs"], exp_l):
                pass
