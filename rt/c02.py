"""C02 runtime contracts: coefficient storage."""
import copy
import numpy as np
from common import *
from c01 import fmt_lin, fmt_quad, prog, LF

RULE = ("seeded random coefficient patterns in all formats, sequences of single-coefficient writes by index/"
        "name/swapped pair, all exports compared with a dictionary model; distinct = different JSON case")


def gen(r, tier):
    total = 500 if tier == "quick" else 9000
    for t in range(total):
        n = r.choice([1, 2, 3, 3, 4]) if r.random() < .95 else 11
        fmt = LF[t % len(LF)]
        kind = "int" if fmt == "intarray" else r.choice(["int", "dyadic"])
        ent = [[i, j, rnd_coef(r, kind)] for i in range(n) for j in range(n) if r.random() < .4]
        wr = [[r.choice(["i", "n", "m"]), r.randrange(n), r.randrange(n), r.choice([0, 0.5, -1.25, 3, 7.5])]
              for _ in range(r.randint(0, 4))]
        yield {"k": "coef", "n": n, "pool": r.randint(0, 2), "fmt": fmt, "lin": rnd_lin(r, n, kind=kind), "quad": ent,
               "writes": wr, "rhs": r.choice([1, -2.5]), "sense": r.choice(list(SENSES))}


def same_arg(a, b):
    if hasattr(a, "toarray"):
        return np.array_equal(a.toarray(), b.toarray())
    if isinstance(a, (list, dict)):
        return a == b
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b) and a.dtype == b.dtype
    return np.array_equal(a.toarray(), b.toarray())


def run(c):
    from qiskit_optimization.problems import LinearExpression, QuadraticExpression
    q, names = prog(c["n"], c["pool"])
    n = c["n"]
    lin, quad = fmt_lin(c["fmt"], n, c["lin"], names), fmt_quad(c["fmt"], n, c["quad"], names)
    lin0, quad0 = copy.deepcopy(lin), copy.deepcopy(quad)
    le, qe = LinearExpression(q, lin), QuadraticExpression(q, quad)
    L = {i: 0.0 for i in range(n)}
    for i, v in c["lin"]:
        L[i] += v
    Q = {(i, j): 0.0 for i in range(n) for j in range(i, n)}
    for i, j, v in c["quad"]:
        Q[min(i, j), max(i, j)] += v

    def check(what):
        for i in range(n):
            require(close(le[i], L[i]) and close(le[names[i]], L[i]), "%s: linear[%s] = %s/%s expected %s", what, i, le[i], le[names[i]], L[i])
            for j in range(n):
                w = Q[min(i, j), max(i, j)]
                for a, b in ((i, j), (names[i], names[j]), (names[i], j), (i, names[j])):
                    require(close(qe[a, b], w), "%s: quadratic[%s,%s] = %s expected %s", what, a, b, qe[a, b], w)
        la = le.to_array()
        require(la.shape == (n,) and all(close(la[i], L[i]) for i in range(n)), "%s: linear array %s", what, la)
        for un in (False, True):
            d = le.to_dict(use_name=un)
            require(all(close(d.get(names[i] if un else i, 0), L[i]) for i in range(n)), "%s: linear dict %s", what, d)
            require(all(k in (names if un else range(n)) for k in d), "%s: linear dict keys %s", what, d)
        qa, qs = qe.to_array(), qe.to_array(symmetric=True)
        for i in range(n):
            for j in range(n):
                w = Q[min(i, j), max(i, j)]
                require(close(qa[i, j], w if i <= j else 0), "%s: quadratic array %s", what, qa.tolist())
                require(close(qs[i, j], w if i == j else w / 2), "%s: symmetric array %s", what, qs.tolist())
        for sym in (False, True):
            for un in (False, True):
                d = qe.to_dict(symmetric=sym, use_name=un)
                want = qs if sym else qa
                for i in range(n):
                    for j in range(n):
                        k = (names[i], names[j]) if un else (i, j)
                        require(close(d.get(k, 0), want[i, j]), "%s: dict(sym=%s,name=%s) %s", what, sym, un, d)
                require(len([1 for v in d.values() if v != 0]) == np.count_nonzero(want), "%s: extra keys %s", what, d)
        for exp in (le.to_array(), le.to_dict(), le.to_dict(use_name=True), le.coefficients, list(le.to_array())):
            e2 = LinearExpression(q, exp)
            require(np.allclose(e2.to_array(), la), "%s: rebuild linear from %s", what, type(exp))
        for exp in (qe.to_array(), qe.to_array(symmetric=True), qe.to_dict(), qe.to_dict(symmetric=True),
                    qe.to_dict(use_name=True), qe.to_dict(symmetric=True, use_name=True), qe.coefficients, qa.tolist()):
            e2 = QuadraticExpression(q, exp)
            require(np.allclose(e2.to_array(), qa), "%s: rebuild quadratic from %s", what, type(exp))
    check("initial")
    require(same_arg(lin, lin0) and same_arg(quad, quad0), "argument modified")
    for w, i, j, v in c["writes"]:
        le[names[i] if w == "n" else i] = v
        L[i] = v
        qe[(i, j) if w == "i" else (names[i], names[j]) if w == "n" else (i, names[j])] = v
        Q[min(i, j), max(i, j)] = v
        check("after write %s" % ([w, i, j, v],))
        require(same_arg(lin, lin0) and same_arg(quad, quad0), "argument modified by a write")
    lc = q.linear_constraint(lin, c["sense"], c["rhs"], "lcn")
    qc = q.quadratic_constraint(lin, quad, c["sense"], c["rhs"], "qcn")
    from qiskit_optimization.problems.constraint import ConstraintSense
    se = {"<=": ConstraintSense.LE, ">=": ConstraintSense.GE, "==": ConstraintSense.EQ}[c["sense"]]
    for con, nm in ((lc, "lcn"), (qc, "qcn")):
        require(con.name == nm and con.sense == se and con.rhs == c["rhs"], "constraint data %s %s %s", con.name, con.sense, con.rhs)
    q.maximize(c["rhs"], lin, quad)
    require(q.objective.sense.value == -1 and q.objective.constant == c["rhs"], "objective data")
    q.minimize(c["rhs"], lin, quad)
    require(q.objective.sense.value == 1 and q.objective.constant == c["rhs"], "objective data")
    require(same_arg(lin, lin0) and same_arg(quad, quad0), "argument modified by program")
