"""C07 runtime contracts: IntegerToBinary."""
from common import *

RULE = ("seeded random programs with integer variables of many ranges (equal bounds, powers of two +-1, negative and float-typed "
        "bounds), all/sampled binary points compared with the original at the interpreted point, reused converter instances; "
        "distinct = different JSON case")


def gen(r, tier):
    for t in range(500 if tier == "quick" else 4000):
        n = r.randint(1, 4)
        spec = rnd_spec(r, n=n, types=r.choice(["i", "bi", "bic", "bic", "bc"]), nl=r.randint(0, 2), nq=r.choice([0, 1, 1, 2]))
        for v in spec["vars"]:
            if v[1] == "i":
                v[2] = r.randint(-6, 6)
                v[3] = v[2] + r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17])
                if r.random() < .3:
                    v[2], v[3] = float(v[2]), float(v[3])
        prev = rnd_spec(r, n=2, types="bi", nq=0, wide=3) if r.random() < .3 else None
        if prev and r.random() < .5:
            prev["vars"] = [list(v) for v in spec["vars"]]
            prev["lin"], prev["quad"], prev["lcs"], prev["qcs"] = [], [], [], []
            for v in prev["vars"]:
                if v[1] == "i":
                    v[3] = v[3] + 3
        yield {"k": "enc", "spec": spec, "prev": prev, "seed": r.randint(0, 10 ** 6)}
    for w in [31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025]:
        yield {"k": "range", "spec": {"vars": [["x", "i", -7, -7 + w]], "sense": 1, "const": 0, "lin": [[0, 1]], "quad": [[0, 0, 1]], "lcs": [], "qcs": []}, "prev": None, "seed": w}


def run(c):
    from qiskit_optimization.converters import IntegerToBinary
    spec = c["spec"]
    q = build(spec)
    r = random.Random(c["seed"])
    conv = IntegerToBinary()
    if c["prev"]:
        conv.convert(build(c["prev"]))
    with unchanged(q):
        res = conv.convert(q)
    w, v0 = coherent(res), view(q)
    n = len(spec["vars"])
    require(res is not q, "input returned instead of a copy")
    require(all(v[1] != "i" for v in w["vars"]), "integer variables left")
    require(w["name"] == v0["name"] and w["sense"] == v0["sense"], "name/sense changed")
    require([[x[0], x[-2]] for x in w["lcs"]] == [[x[0], x[-2]] for x in v0["lcs"]], "linear constraint names/senses")
    require([[x[0], x[-2]] for x in w["qcs"]] == [[x[0], x[-2]] for x in v0["qcs"]], "quadratic constraint names/senses")
    keep = [v for v in v0["vars"] if v[1] != "i"]
    wn = {v[0]: v for v in w["vars"]}
    for v in keep:
        require(wn.get(v[0]) == v, "variable %s changed to %s", v, wn.get(v[0]))
    if not any(v[1] == "i" for v in v0["vars"]):
        same_view(v0, w, "copy without integer variables")
    newb = [i for i, v in enumerate(w["vars"]) if v[0] not in {k[0] for k in keep}]
    require(all(w["vars"][i][1] == "b" for i in newb), "encoding variables are not binary")
    kpos = {i: i2 for i2, v in enumerate(w["vars"]) for i, k in enumerate(v0["vars"]) if k[1] != "i" and k[0] == v[0]}
    # range: interpretation is affine per integer variable; recover the coefficients and the reachable set
    base = [0.0] * len(w["vars"])
    x0 = list(conv.interpret(base))
    coefs = {i: [] for i in range(n)}
    for b in newb:
        e = list(base)
        e[b] = 1.0
        d = [a - z for a, z in zip(conv.interpret(e), x0)]
        nz = [i for i in range(n) if abs(d[i]) > 1e-12]
        require(len(nz) <= 1 and all(v0["vars"][i][1] == "i" for i in nz), "bit %s moves %s", w["vars"][b][0], nz)
        for i in nz:
            coefs[i].append(d[i])
    for i, v in enumerate(v0["vars"]):
        if v[1] == "i":
            reach = {x0[i]}
            for a in coefs[i]:
                reach |= {z + a for z in reach}
            require(reach == set(float(z) for z in range(int(v[2]), int(v[3]) + 1)), "%s encodes %s.. expected %s..%s", v[0], sorted(reach)[:8], v[2], v[3])
    nb = len(w["vars"])
    for _ in range(24):
        y = [float(r.randint(0, 1)) for _ in range(nb)]
        for i, p in kpos.items():
            if v0["vars"][i][1] == "c":
                y[p] = r.choice([-1.5, 0, 2.0, 0.25])
        x = list(conv.interpret(y))
        for i, p in kpos.items():
            require(x[i] == y[p], "interpret moved %s", v0["vars"][i][0])
        require(close(res.objective.evaluate(y), ev_obj(spec, x)), "objective at %s: %s expected %s", y, res.objective.evaluate(y), ev_obj(spec, x))
        for o, nw in zip(spec["lcs"], w["lcs"]):
            require(close(ev_lin(nw[1], y) - nw[-1], ev_lin(o[1], x) - o[-1]), "linear constraint %s at %s", o[0], y)
        for o, nw in zip(spec["qcs"], w["qcs"]):
            require(close(ev_lin(nw[1], y) + ev_quad(nw[2], y) - nw[-1], ev_lin(o[1], x) + ev_quad(o[2], x) - o[-1]), "quadratic constraint %s at %s", o[0], y)
