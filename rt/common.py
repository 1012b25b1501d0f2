"""Shared helpers of the runtime-contract layer (runs under /opt/venv/bin/python against /repo).

A *spec* is a plain JSON description of a program; the oracles below work on specs only and share
no code with the library under test.
"""
import itertools
import math
import random
import warnings

warnings.simplefilter("ignore")
import logging

logging.disable(logging.CRITICAL)


class Violation(Exception):
    """A contract is violated on the real code."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def raises(fn, exc=Exception):
    try:
        fn()
    except exc:
        return True
    except Exception as ex:  # noqa
        raise Violation("expected %s, got %s: %s" % (getattr(exc, "__name__", exc), type(ex).__name__, ex))
    return False


# ----------------------------------------------------------------------------------------- specs
# spec = {"vars": [[name, type, lb, ub]], "sense": 1|-1, "const": c, "lin": [[i, v]],
#         "quad": [[i, j, v]], "lcs": [[name, [[i, v]], sense, rhs]],
#         "qcs": [[name, [[i, v]], [[i, j, v]], sense, rhs]]}
SENSES = ("<=", ">=", "==")


def rnd_coef(r, kind="int"):
    if kind == "int":
        return r.choice([-3, -2, -1, 1, 2, 3, 4, 5, -5, 7])
    if kind == "pos":
        return r.randint(1, 6)
    return r.choice([-2.5, -1.75, -0.5, 0.25, 0.5, 1.5, 2.0, 3.0, -1.0, 4.25])


def rnd_lin(r, n, dens=0.6, kind="int"):
    return [[i, rnd_coef(r, kind)] for i in range(n) if r.random() < dens]


def rnd_quad(r, n, dens=0.5, kind="int"):
    return [[i, j, rnd_coef(r, kind)] for i in range(n) for j in range(i, n) if r.random() < dens]


def rnd_bounds(r, vt, wide=4):
    if vt == "b":
        return 0, 1
    lb = r.randint(-wide, wide)
    return lb, lb + r.randint(0, wide)


def rnd_spec(r, n=None, types="bic", nl=None, nq=None, kind="int", quad_obj=True, senses=SENSES,
             wide=4, rhs_float=False, names=None):
    n = n if n is not None else r.randint(1, 4)
    vs = []
    pool = names or r.choice([["x", "y", "z", "w", "u", "v"], ["x0", "x1", "x2", "x3", "x4", "x5"],
                              ["v10", "v2", "a", "v1", "b", "c"]])
    for i in range(n):
        vt = r.choice(types)
        lb, ub = rnd_bounds(r, vt, wide)
        vs.append([pool[i] if i < len(pool) else "n%d" % i, vt, lb, ub])
    nl = r.randint(0, 3) if nl is None else nl
    nq = r.randint(0, 2) if nq is None else nq

    def rhs():
        return r.randint(-6, 8) + (r.choice([0, 0.5, 0.25, -0.5]) if rhs_float else 0)
    lcs = [["l%d" % k, rnd_lin(r, n, kind=kind), r.choice(senses), rhs()] for k in range(nl)]
    qcs = [["q%d" % k if r.random() < 0.5 else "k%d" % k, rnd_lin(r, n, kind=kind),
            rnd_quad(r, n, kind=kind), r.choice(senses), rhs()] for k in range(nq)]
    return {"vars": vs, "sense": r.choice([1, -1]), "const": rnd_coef(r, kind) if r.random() < .7 else 0,
            "lin": rnd_lin(r, n, kind=kind), "quad": rnd_quad(r, n, kind=kind) if quad_obj else [],
            "lcs": lcs, "qcs": qcs}


def build(spec):
    from qiskit_optimization import QuadraticProgram
    q = QuadraticProgram(spec.get("name", ""))
    for name, vt, lb, ub in spec["vars"]:
        if vt == "b":
            q.binary_var(name)
        elif vt == "i":
            q.integer_var(lb, ub, name)
        else:
            q.continuous_var(lb, ub, name)
    lin = {i: v for i, v in spec["lin"]}
    quad = {(i, j): v for i, j, v in spec["quad"]}
    (q.minimize if spec["sense"] == 1 else q.maximize)(spec["const"], lin, quad)
    for name, l, s, rhs in spec["lcs"]:
        q.linear_constraint({i: v for i, v in l}, s, rhs, name)
    for name, l, qq, s, rhs in spec["qcs"]:
        q.quadratic_constraint({i: v for i, v in l}, {(i, j): v for i, j, v in qq}, s, rhs, name)
    return q


def ev_lin(lin, x):
    return math.fsum(v * x[i] for i, v in lin)


def ev_quad(quad, x):
    return math.fsum(v * x[i] * x[j] for i, j, v in quad)


def ev_obj(spec, x):
    return spec["const"] + ev_lin(spec["lin"], x) + ev_quad(spec["quad"], x)


def sat(lhs, sense, rhs, tol=1e-9):
    if sense == "<=":
        return lhs <= rhs + tol
    if sense == ">=":
        return lhs >= rhs - tol
    return abs(lhs - rhs) <= tol


def ev_lcs(spec, x):
    return [sat(ev_lin(l, x), s, rhs) for _, l, s, rhs in spec["lcs"]]


def ev_qcs(spec, x):
    return [sat(ev_lin(l, x) + ev_quad(q, x), s, rhs) for _, l, q, s, rhs in spec["qcs"]]


def in_bounds(spec, x):
    return all(lb - 1e-9 <= v <= ub + 1e-9 for (_, _, lb, ub), v in zip(spec["vars"], x))


def feasible(spec, x):
    return in_bounds(spec, x) and all(ev_lcs(spec, x)) and all(ev_qcs(spec, x))


def grid(spec, cont_steps=3):
    """All points of the discrete box (continuous variables sampled at a few values)."""
    doms = []
    for _, vt, lb, ub in spec["vars"]:
        if vt == "c":
            step = (ub - lb) / max(1, cont_steps - 1)
            doms.append(sorted({lb + step * k for k in range(cont_steps)}))
        else:
            doms.append(list(range(int(math.ceil(lb)), int(math.floor(ub)) + 1)))
    return itertools.product(*doms)


def npoints(spec):
    n = 1
    for _, vt, lb, ub in spec["vars"]:
        n *= 3 if vt == "c" else int(ub - lb + 1)
    return n


def rnd_point(r, n, vals=(-2, -1, 0, 1, 2, 3, 0.5, -1.5)):
    return [r.choice(vals) for _ in range(n)]


TYPE = {}


def view(q):
    """Spec of a real program, read through the public API."""
    from qiskit_optimization.problems.variable import VarType
    from qiskit_optimization.problems.constraint import ConstraintSense
    tname = {VarType.CONTINUOUS: "c", VarType.BINARY: "b", VarType.INTEGER: "i"}
    sname = {ConstraintSense.LE: "<=", ConstraintSense.GE: ">=", ConstraintSense.EQ: "=="}
    vs = [[v.name, tname[v.vartype], v.lowerbound, v.upperbound] for v in q.variables]

    def lin(e):
        return [[int(i), float(v)] for i, v in sorted(e.to_dict().items()) if v != 0]

    def quad(e):
        return [[int(i), int(j), float(v)] for (i, j), v in sorted(e.to_dict().items()) if v != 0]
    return {"name": q.name, "vars": vs, "sense": q.objective.sense.value, "const": float(q.objective.constant),
            "lin": lin(q.objective.linear), "quad": quad(q.objective.quadratic),
            "lcs": [[c.name, lin(c.linear), sname[c.sense], float(c.rhs)] for c in q.linear_constraints],
            "qcs": [[c.name, lin(c.linear), quad(c.quadratic), sname[c.sense], float(c.rhs)]
                    for c in q.quadratic_constraints],
            "vi": dict(q.variables_index), "li": dict(q.linear_constraints_index),
            "qi": dict(q.quadratic_constraints_index), "status": q.status.name}


def same_view(a, b, what):
    for k in a:
        require(a[k] == b[k], "%s: %s differs: %s vs %s", what, k, a[k], b[k])


class unchanged:
    """Context manager: the program must not be modified by the block."""

    def __init__(self, q, what="input program"):
        self.q, self.what = q, what

    def __enter__(self):
        self.before = view(self.q)
        self.vars = [id(v) for v in self.q.variables]
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            same_view(self.before, view(self.q), self.what + " was modified")
            require(self.vars == [id(v) for v in self.q.variables], self.what + " lost its variable objects")
        return False


def coherent(q, what=""):
    v = view(q)
    for lst, idx, get, kind in (
        (q.variables, q.variables_index, q.get_variable, "variable"),
        (q.linear_constraints, q.linear_constraints_index, q.get_linear_constraint, "linear constraint"),
        (q.quadratic_constraints, q.quadratic_constraints_index, q.get_quadratic_constraint, "quadratic constraint"),
    ):
        names = [e.name for e in lst]
        require(len(set(names)) == len(names), "%s duplicate %s names %s", what, kind, names)
        require(idx == {n: i for i, n in enumerate(names)}, "%s %s index %s does not match %s", what, kind, idx, names)
        for i, n in enumerate(names):
            require(get(i) is lst[i] and get(n) is lst[i], "%s lookup of %s %s", what, kind, n)
    return v
