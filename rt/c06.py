"""C06 runtime contracts: InequalityToEquality."""
from common import *

RULE = ("seeded random programs (linear and quadratic constraints of all senses, negative bounds/coefficients, fractional "
        "right-hand sides, all modes, reused instances); every original grid point is checked for an extending slack and every "
        "converted point for its restriction; distinct = different JSON case")


def gen(r, tier):
    for t in range(450 if tier == "quick" else 4000):
        mode = r.choice(["integer", "continuous", "auto", "auto"])
        types = "bi" if mode == "integer" or r.random() < .6 else "bic"
        kind = "int" if mode == "integer" or r.random() < .6 else "dyadic"
        spec = rnd_spec(r, n=r.randint(1, 3), types=types, kind=kind, rhs_float=r.random() < .5, wide=2,
                        nl=r.randint(0, 3), nq=r.choice([0, 0, 1, 2]))
        if r.random() < .2 and spec["lcs"]:
            spec["lcs"][0][1] = []
        if spec["lcs"] and spec["qcs"] and r.random() < .3:
            spec["qcs"][0][0] = spec["lcs"][0][0]
        prev = rnd_spec(r, n=2, types="b", nq=0) if r.random() < .3 else None
        yield {"k": "slack", "spec": spec, "mode": mode, "prev": prev, "viamode": r.choice([0, 1])}
    for t in range(40):
        spec = rnd_spec(r, n=2, types="bi", kind="int")
        spec["lcs"] = [["c", [[0, 1.5], [1, 1]], r.choice(["<=", ">="]), 1]]
        if r.random() < .3:
            spec["lcs"] = []
            spec["qcs"] = [["c", [], [[0, 1, 0.5]], "<=", 1]]
        yield {"k": "reject", "spec": spec, "mode": r.choice(["integer", "bogus"])}


def isint(v):
    return float(v).is_integer()


def run(c):
    from qiskit_optimization import QiskitOptimizationError
    from qiskit_optimization.converters import InequalityToEquality
    spec = c["spec"]
    q = build(spec)
    if c["k"] == "reject":
        with unchanged(q):
            require(raises(lambda: InequalityToEquality(mode=c["mode"]).convert(q), QiskitOptimizationError), "not rejected in mode %s", c["mode"])
        return
    conv = InequalityToEquality(mode=c["mode"]) if not c["viamode"] else InequalityToEquality()
    if c["viamode"]:
        conv.mode = c["mode"]
    require(conv.mode == c["mode"], "mode property")
    if c["prev"]:
        conv.convert(build(c["prev"]))
    with unchanged(q):
        res = conv.convert(q)
    w = coherent(res)
    n = len(spec["vars"])
    v0 = view(q)
    got = {v[0]: v for v in w["vars"]}
    order = [v[0] for v in w["vars"]]
    for v in v0["vars"]:
        require(v[0] in got and got[v[0]] == v, "original variable %s changed to %s", v, got.get(v[0]))
    pos = [order.index(v[0]) for v in v0["vars"]]
    slacks = [k for k in range(len(order)) if k not in pos]
    m = {p: i for i, p in enumerate(pos)}

    def ren(lin):
        return sorted([m[i], v] for i, v in lin if i in m)

    def renq(quad):
        out = {}
        for i, j, v in quad:
            require(i in m and j in m, "slack in quadratic term")
            t = (min(m[i], m[j]), max(m[i], m[j]))
            out[t] = out.get(t, 0) + v
        return out
    require(w["sense"] == v0["sense"] and w["const"] == v0["const"] and sorted(ren(w["lin"])) == v0["lin"] and
            len(ren(w["lin"])) == len(w["lin"]) and renq(w["quad"]) == {(i, j): v for i, j, v in v0["quad"]}, "objective changed")
    require(w["name"] == v0["name"], "name changed")
    require([x[0] for x in w["lcs"]] == [x[0] for x in v0["lcs"]] and [x[0] for x in w["qcs"]] == [x[0] for x in v0["qcs"]], "constraint names changed")
    used = set()
    pts = list(grid(spec, 3))
    if len(pts) > 150:
        pts = pts[:: len(pts) // 150 + 1]
    tvar = {i: spec["vars"][i][1] for i in range(n)}
    for kind, olds, news in (("l", spec["lcs"], w["lcs"]), ("q", spec["qcs"], w["qcs"])):
        for o, nw in zip(olds, news):
            ol, oq = o[1], (o[2] if kind == "q" else [])
            nl, nq = nw[1], (nw[2] if kind == "q" else [])
            os, orhs = o[-2], o[-1]
            require(nw[-2] == "==", "constraint %s has sense %s", nw[0], nw[-2])
            sl = [(i, v) for i, v in nl if i in slacks]
            require(len(sl) <= 1, "constraint %s uses slacks %s", nw[0], sl)
            if os == "==":
                require(not sl, "equality %s got a slack", o[0])
            for i, _ in sl:
                require(i not in used, "slack shared between constraints")
                used.add(i)
            want_int = c["mode"] == "integer" or (c["mode"] == "auto" and all(isint(v) for _, v in ol) and all(isint(v) for *_, v in oq)
                                                 and all(tvar[i] != "c" for i, _ in ol) and all(tvar[i] != "c" and tvar[j] != "c" for i, j, _ in oq))
            for i, v in sl:
                require(w["vars"][i][1] == ("i" if want_int else "c"), "slack type of %s is %s", o[0], w["vars"][i][1])
            for x in pts:
                y = [0.0] * len(order)
                for p, v in zip(pos, x):
                    y[p] = v
                lhs_o = ev_lin(ol, x) + ev_quad(oq, x)
                lhs_n = ev_lin(nl, y) + ev_quad(nq, y)  # slack at zero
                ok_o = sat(lhs_o, os, orhs)
                if sl:
                    (i, a), = sl
                    _, st, slb, sub = w["vars"][i]
                    require(slb <= sub, "slack bounds")
                    s = (nw[-1] - lhs_n) / a
                    ok_n = slb - 1e-9 <= s <= sub + 1e-9 and (st == "c" or abs(s - round(s)) < 1e-9)
                else:
                    ok_n = sat(lhs_n, "==", nw[-1])
                require(ok_o == ok_n, "constraint %s at %s: original satisfied=%s, converted satisfiable=%s", o[0], x, ok_o, ok_n)
    require(used == set(slacks), "unused slack variables %s", set(slacks) - used)
    y = [10 + k for k in range(len(order))]
    got = list(conv.interpret(y))
    require(got == [y[p] for p in pos], "interpret(%s) = %s expected %s", y, got, [y[p] for p in pos])
