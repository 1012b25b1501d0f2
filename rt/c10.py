"""C10 runtime contracts: to_ising / from_ising."""
from common import *
import numpy as np

RULE = ("seeded random QUBOs exported and every basis state's energy compared; random Z-operators with repeated/identity terms "
        "imported in several operator classes; distinct = different JSON case")


def gen(r, tier):
    for t in range(160 if tier == "quick" else 1500):
        kind = r.choice(["int", "dyadic"])
        n = r.randint(1, 4)
        spec = rnd_spec(r, n=n, types="b", nl=0, nq=0, kind=kind)
        if r.random() < .1:
            spec["lin"], spec["quad"] = [], []
        if r.random() < .1:  # cancels exactly
            spec["lin"], spec["quad"] = [[0, 2]], [[0, 0, -2]]
        yield {"k": "to", "spec": spec}
    for t in range(160 if tier == "quick" else 1500):
        n = r.randint(1, 4)
        terms = []
        for _ in range(r.randint(1, 6)):
            k = r.choice([0, 1, 1, 2, 2])
            z = sorted(r.sample(range(n), min(k, n)))
            terms.append([z, r.choice([-2, -1.5, -1, 0.5, 1, 2.25, 3])])
        if r.random() < .3:
            terms.append([list(terms[0][0]), 1.5])
        yield {"k": "from", "n": n, "terms": terms, "offset": r.choice([0, 1.5, -3]), "linear": r.random() < .5, "form": r.choice(["sum", "summed", "op"]),
               "neg": r.random() < .3}
    for t in range(40):
        kind = r.choice(["int", "cont", "lc", "qc"])
        spec = rnd_spec(r, n=3, types="b", nl=0, nq=0)
        if kind == "int":
            spec["vars"][1] = ["y", "i", 0, r.choice([1, 3])]
        elif kind == "cont":
            spec["vars"][2] = ["z", "c", 0, 1]
        elif kind == "lc":
            spec["lcs"] = [["c", [[0, 1]], r.choice(SENSES), 1]]
        else:
            spec["qcs"] = [["c", [], [[0, 1, 1]], r.choice(SENSES), 1]]
        yield {"k": "rejto", "spec": spec}
    for p in ("ZZZ", "XII", "IYZ", "XZZ", "XXI"):
        for form in ("sum", "op"):
            yield {"k": "rejfrom", "pauli": p, "form": form}


def energy(op, n):
    m = op.to_matrix()
    m = np.asarray(m)
    require(m.shape == (2 ** n, 2 ** n), "operator acts on %s instead of %s qubits", m.shape, n)
    require(np.allclose(m, np.diag(np.diag(m))), "operator is not diagonal")
    return np.real(np.diag(m))


def run(c):
    from qiskit_optimization import QuadraticProgram, QiskitOptimizationError
    from qiskit.opflow import PauliOp, PauliSumOp, SummedOp
    from qiskit.quantum_info import Pauli, SparsePauliOp
    if c["k"] == "to":
        spec = c["spec"]
        n = len(spec["vars"])
        q = build(spec)
        with unchanged(q):
            op, off = q.to_ising()
        d = energy(op, n)
        for b in range(2 ** n):
            x = [(b >> i) & 1 for i in range(n)]
            want = spec["sense"] * ev_obj(spec, x)
            require(close(d[b] + off, want), "energy of %s: %s + %s expected %s", x, d[b], off, want)
        q2 = QuadraticProgram()
        q2.from_ising(op, off, linear=True)
        for b in range(2 ** n):
            x = [(b >> i) & 1 for i in range(n)]
            require(close(q2.objective.evaluate(x), spec["sense"] * ev_obj(spec, x)), "reimport at %s", x)
        return
    if c["k"] == "rejto":
        q = build(c["spec"])
        with unchanged(q):
            require(raises(q.to_ising, QiskitOptimizationError), "not rejected")
        return
    if c["k"] == "rejfrom":
        op = PauliOp(Pauli(c["pauli"]), 1.0)
        if c["form"] == "sum":
            op = PauliSumOp(SparsePauliOp.from_list([("IIZ", 1.0), (c["pauli"], 2.0)]))
        require(raises(lambda: QuadraticProgram().from_ising(op), QiskitOptimizationError), "%s accepted", c["pauli"])
        return
    n = c["n"]

    def label(z):
        return "".join("Z" if i in z else "I" for i in reversed(range(n)))
    lst = [(label(z), v) for z, v in c["terms"]]
    if c["form"] == "sum":
        op = PauliSumOp(SparsePauliOp.from_list(lst))
    elif c["form"] == "summed" and len(lst) > 1:
        op = SummedOp([PauliOp(Pauli(l), v) for l, v in lst])  # opflow itself drops the signs of signed Paulis in sums
    else:
        lst = lst[:1]
        op = PauliOp(Pauli(("-" if c.get("neg") else "") + lst[0][0]), -lst[0][1] if c.get("neg") else lst[0][1])
    terms = c["terms"][: len(lst)]
    q = QuadraticProgram()
    q.from_ising(op, c["offset"], linear=c["linear"])
    w = coherent(q)
    require(len(w["vars"]) == n and all(v[1] == "b" for v in w["vars"]) and not w["lcs"] and not w["qcs"] and w["sense"] == 1, "shape of the program")
    for b in range(2 ** n):
        x = [(b >> i) & 1 for i in range(n)]
        e = c["offset"] + sum(v * np.prod([1 - 2 * x[i] for i in z]) for z, v in terms)
        require(close(q.objective.evaluate(x), float(e)), "objective at %s: %s expected %s", x, q.objective.evaluate(x), e)
    if not c["linear"]:
        require(not w["lin"], "linear terms although linear=False")
    else:
        require(all(i != j for i, j, _ in w["quad"]), "squares although linear=True")
