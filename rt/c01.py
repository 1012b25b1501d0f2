"""C01 runtime contracts: evaluation and gradients."""
import numpy as np
from common import *

RULE = ("seeded random programs of 1-4 (sometimes 11-12) variables; expressions given as list/array/"
        "dok/csr/coo/dict(index, name, mixed); points as list/array/dict; oracle = direct polynomial; "
        "non-trivial = distinct case with at least one coefficient")
LF = ["list", "array", "dok", "csr", "coo", "dict_i", "dict_n", "dict_m", "intarray"]
XF = ["list", "array", "dict_i", "dict_n", "dict_m", "intlist"]


def fmt_lin(fmt, n, lin, names):
    from scipy.sparse import dok_matrix, csr_matrix, coo_matrix
    d = [0] * n
    for i, v in lin:
        d[i] = v
    if fmt == "list":
        return list(d)
    if fmt == "array":
        return np.array(d, dtype=float)
    if fmt == "intarray":
        return np.array([int(v) for v in d])
    if fmt in ("dok", "csr", "coo"):
        return {"dok": dok_matrix, "csr": csr_matrix, "coo": coo_matrix}[fmt](np.array([d], dtype=float))
    if fmt == "dict_i":
        return {i: v for i, v in lin}
    if fmt == "dict_n":
        return {names[i]: v for i, v in lin}
    return {(names[i] if k % 2 else i): v for k, (i, v) in enumerate(lin)}


def fmt_quad(fmt, n, ent, names):
    from scipy.sparse import dok_matrix, csr_matrix, coo_matrix
    m = np.zeros((n, n))
    for i, j, v in ent:
        m[i, j] = v
    if fmt == "list":
        return m.tolist()
    if fmt == "array":
        return m
    if fmt == "intarray":
        return m.astype(int)
    if fmt in ("dok", "csr", "coo"):
        return {"dok": dok_matrix, "csr": csr_matrix, "coo": coo_matrix}[fmt](m)
    if fmt == "dict_i":
        return {(i, j): v for i, j, v in ent}
    if fmt == "dict_n":
        return {(names[i], names[j]): v for i, j, v in ent}
    return {((names[i], j) if k % 2 else (i, names[j])): v for k, (i, j, v) in enumerate(ent)}


def fmt_x(fmt, x, names):
    if fmt == "list" or fmt == "intlist":
        return list(x)
    if fmt == "array":
        return np.array(x, dtype=float)
    if fmt == "dict_i":
        return {i: v for i, v in enumerate(x)}
    if fmt == "dict_n":
        return {names[i]: v for i, v in enumerate(x)}
    return {(names[i] if i % 2 else i): v for i, v in enumerate(x)}


def prog(n, pool=0):
    from qiskit_optimization import QuadraticProgram
    q = QuadraticProgram()
    names = []
    for i in range(n):
        nm = ["v%d" % i, "x%d" % (n - 1 - i), "y_%d" % (i * 7 % (n + 7))][pool]
        if nm in names:
            nm = "u%d" % i
        names.append(nm)
        [lambda: q.binary_var(nm), lambda: q.integer_var(-2, 3, nm), lambda: q.continuous_var(-5, 5, nm)][i % 3]()
    return q, names


def gen(r, tier):
    total = 1500 if tier == "quick" else 12000
    for t in range(total):
        n = r.choice([1, 2, 2, 3, 3, 4]) if r.random() < 0.95 else r.randint(11, 12)
        fmt, xf = LF[t % len(LF)], XF[(t // len(LF)) % len(XF)]
        kind = "int" if fmt == "intarray" else r.choice(["int", "dyadic"])
        ent = [[i, j, rnd_coef(r, kind)] for i in range(n) for j in range(n) if r.random() < (0.5 if n < 5 else .1)]
        vals = (-2, -1, 0, 1, 2, 3) if xf == "intlist" else (-2, -1, 0, 1, 2, 3, 0.5, -1.5, 0.25)
        yield {"k": "expr", "n": n, "pool": r.randint(0, 2), "lin": rnd_lin(r, n, kind=kind), "quad": ent, "fmt": fmt,
               "xf": xf, "x": rnd_point(r, n, vals), "const": rnd_coef(r, "dyadic"), "sense": r.choice([1, -1])}


def run(c):
    from qiskit_optimization.problems import (LinearExpression, QuadraticExpression)
    q, names = prog(c["n"], c["pool"])
    n, x = c["n"], c["x"]
    lin, quad = fmt_lin(c["fmt"], n, c["lin"], names), fmt_quad(c["fmt"], n, c["quad"], names)
    vl, vq = ev_lin(c["lin"], x), ev_quad(c["quad"], x)
    gl = [0.0] * n
    for i, v in c["lin"]:
        gl[i] += v
    gq = [0.0] * n
    for i, j, v in c["quad"]:
        gq[i] += v * x[j]
        gq[j] += v * x[i]

    def pt():
        return fmt_x(c["xf"], x, names)

    def val(got, want, what):
        require(np.ndim(got) == 0 and close(float(got), want), "%s = %s, expected %s", what, got, want)

    def vec(got, want, what):
        got = np.asarray(got, dtype=float)
        require(got.shape == (n,) and all(close(a, b) for a, b in zip(got, want)), "%s = %s, expected %s", what, got, want)
    le = LinearExpression(q, lin)
    qe = QuadraticExpression(q, quad)
    for rep in range(2):
        p = pt()
        val(le.evaluate(p), vl, "linear.evaluate")
        vec(le.evaluate_gradient(p), gl, "linear gradient")
        val(qe.evaluate(p), vq, "quadratic.evaluate")
        vec(qe.evaluate_gradient(p), gq, "quadratic gradient")
        require(np.array_equal(p, pt()) if not isinstance(p, dict) else p == pt(), "point modified")
    if c["sense"] == 1:
        q.minimize(c["const"], lin, quad)
    else:
        q.maximize(c["const"], lin, quad)
    val(q.objective.evaluate(pt()), c["const"] + vl + vq, "objective.evaluate")
    vec(q.objective.evaluate_gradient(pt()), [a + b for a, b in zip(gl, gq)], "objective gradient")
    lc = q.linear_constraint(lin, "<=", 1.5, "lc")
    val(lc.evaluate(pt()), vl, "linear constraint evaluate")
    qc = q.quadratic_constraint(lin, quad, ">=", 1.5, "qc")
    val(qc.evaluate(pt()), vl + vq, "quadratic constraint evaluate")
    # reassigned parts
    q.objective.linear = lin
    q.objective.quadratic = quad
    val(q.objective.evaluate(pt()), c["const"] + vl + vq, "objective.evaluate after reassignment")
    lc.linear = quad_row(c, n)
    val(lc.evaluate(pt()), ev_lin(list(enumerate(quad_row(c, n))), x), "constraint after reassignment")


def quad_row(c, n):
    row = [0.0] * n
    for i, j, v in c["quad"]:
        row[j] += v
    return row
