"""C19 runtime contracts: GroverOptimizer."""
from common import *
import numpy as np

RULE = ("a scripted quantum instance answers every circuit with seeded random measurement outcomes (count and state-vector mode); the "
        "first circuit of each threshold is simulated and its value register compared with the shifted objective; accepted points are "
        "tracked independently; distinct = different JSON case")


def gen(r, tier):
    for t in range(60 if tier == "quick" else 500):
        spec = rnd_spec(r, n=r.randint(1, 3), types="b", nl=0, nq=0)
        if r.random() < .4:
            spec["const"] = 0
        yield {"k": r.choice(["counts", "counts", "sv", "multi"]), "spec": spec, "nv": r.randint(4, 5), "it": r.randint(1, 3), "seed": r.randint(0, 10 ** 6),
               "conv": r.choice([None, None, []])}
    for t in range(14 if tier == "quick" else 100):
        spec = rnd_spec(r, n=r.randint(2, 3), types="b", nl=0, nq=0)
        for k in ("lin", "quad"):
            spec[k] = [e[:-1] + [max(-2, min(2, e[-1]))] for e in spec[k]]
        spec["const"] = 0
        yield {"k": "honest", "spec": spec, "nv": 5, "it": 8, "seed": r.randint(0, 10 ** 6), "conv": None}


def run(c):
    from qiskit.quantum_info import Statevector
    from qiskit.utils import algorithm_globals
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.algorithms import GroverOptimizer, OptimizationResultStatus as ST
    spec = c["spec"]
    q = build(spec)
    n, nv = len(spec["vars"]), c["nv"]
    r = random.Random(c["seed"])
    algorithm_globals.random_seed = c["seed"] % 10000
    log = []
    sg = spec["sense"]

    class RC:
        shots = 1000

    def twos(v):
        return v - 2 ** nv if v >= 2 ** (nv - 1) else v
    state = {"best": math.inf, "thr": 0, "acc": [], "fresh": True, "keysets": None}

    class Res:
        def __init__(self, qc):
            self.qc = qc
            m = qc.remove_final_measurements(inplace=False) if c["k"] != "sv" else qc
            self.nq = m.num_qubits
            if state["fresh"]:
                # no amplification yet: the circuit prepares sum_x |x>|Q(x) - threshold>
                sv = np.abs(Statevector.from_instruction(m).data) ** 2
                tot = 0
                for idx, p in enumerate(sv):
                    if p > 1e-9:
                        x = [(idx >> i) & 1 for i in range(n)]
                        val = sum(((idx >> (n + nv - 1 - b)) & 1) << b for b in range(nv))
                        want = (sg * ev_obj(spec, x) - state["thr"]) % (2 ** nv)
                        require(val == want, "value register at %s holds %s, expected %s (threshold %s)", x, val, want, state["thr"])
                        require(close(p, 2.0 ** -n, 1e-6), "key %s has probability %s", x, p)
                        tot += 1
                require(tot == 2 ** n, "%s keys prepared", tot)
                state["fresh"] = False
            keys = [[r.randint(0, 1) for _ in range(n)]]
            if c["k"] == "multi":
                keys += [[r.randint(0, 1) for _ in range(n)] for _ in range(2)]
            val = r.randrange(2 ** nv)
            cnt = {}
            left = 1000
            for i, kb in enumerate(keys):
                take = left if i == len(keys) - 1 else r.randint(1, 400)
                left -= take
                cnt[tuple(kb)] = cnt.get(tuple(kb), 0) + take
            self.cnt, self.val = cnt, val
            iv = twos(val) + state["thr"]
            log.append(iv)
            if iv < state["best"]:
                state["best"] = iv
                state["thr"] = iv
                state["acc"].append((iv, cnt))
                state["fresh"] = True

        def bits(self, kb):
            # qubit i of the key register first, then the value register, most significant bit first
            b = list(kb) + [(self.val >> (nv - 1 - j)) & 1 for j in range(nv)]
            return b + [0] * (self.nq - len(b))

        def get_counts(self, qc=None):
            return {"".join(str(v) for v in reversed(self.bits(k)[: self.nm])): w for k, w in self.cnt.items()}

        def get_statevector(self, qc=None):
            sv = np.zeros(2 ** self.nq, complex)
            for k, w in self.cnt.items():
                idx = sum(v << i for i, v in enumerate(self.bits(k)))
                sv[idx] = math.sqrt(w / 1000)
            return sv

        nm = property(lambda self: len(self.qc.clbits) or self.nq)

    class QI:
        run_config = RC()
        is_statevector = c["k"] == "sv"

        def execute(self, qc, **k):
            return Res(qc)
    if c["k"] == "honest":
        from qiskit import Aer
        from qiskit.utils import QuantumInstance
        opt = GroverOptimizer(nv, num_iterations=c["it"], quantum_instance=QuantumInstance(Aer.get_backend("statevector_simulator"), seed_simulator=1, seed_transpiler=1))
    else:
        opt = GroverOptimizer(nv, num_iterations=c["it"], quantum_instance=QI(), converters=c["conv"])
    with unchanged(q):
        res = opt.solve(q)
    x = [int(v) for v in res.x]
    require(close(res.fval, ev_obj(spec, x)), "fval %s at %s expected %s", res.fval, x, ev_obj(spec, x))
    require(res.status == ST.SUCCESS, "status")
    require(res.n_input_qubits == n and res.n_output_qubits == nv, "qubit counts")
    for s in res.samples:
        require(close(s.fval, ev_obj(spec, [int(v) for v in s.x])), "sample %s", s)
    if c["k"] == "honest":
        return
    iv, cnt = state["acc"][-1]
    require(close(res.threshold, iv), "threshold %s expected %s", res.threshold, iv)
    if iv >= 0 and spec["const"] == 0:
        require(x == [0] * n, "expected the zero point, got %s", x)
    else:
        require(tuple(x) in cnt, "x = %s, last accepted %s", x, cnt)
    want = {k: w / 1000 for k, w in cnt.items()}
    got = {tuple(int(v) for v in s.x): s.probability for s in res.samples}
    require(set(got) == set(want) and all(close(got[k], want[k], 1e-6) for k in want), "samples %s expected %s", got, want)
    fs = [sg * s.fval for s in res.samples]
    require(fs == sorted(fs), "samples not ordered %s", fs)
    require(len(res.operation_counts) == len(log), "operation counts")
