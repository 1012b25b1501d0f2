"""C19: Grover adaptive search (the real GroverOptimizer functions, both while loops with inferred invariants over ghost state)."""
import math
from fractions import Fraction

from .common import *
from pv import whiles
from .c04 import exists_defs, exc_name

GR = PRE + "algorithms.grover_optimizer."
OA = PRE + "algorithms.optimization_algorithm."
Out = z3.DeclareSort("Outcome")
NUM = z3.Function("bits_as_number", Out, I, I, I)       # characters lo..hi of an outcome read as a binary number
TOP = z3.Function("character_is_one", Out, I, B)
SIZE = z3.Function("number_of_counts", Out, I)
AMP = z3.Function("amplitude", Out, I, R)
BIT = z3.Function("digit", I, I, I, I)                  # digit c (from the left) of a number written with n binary digits


class Search:
    def __init__(self, ctx, statevector, maximize=None):
        self.ctx = ctx
        eng = self.eng = setup()
        eng.fresh_tok = lambda: 0
        whiles.install(eng)
        eng.analysing = 0
        eng.cheap = True
        n, nv = self.n, self.nv = z3.Ints("n_key n_value")
        self.lin, self.quad, self.stored = z3.Function("linear", I, R), z3.Function("quadratic", I, I, R), z3.Function("stored", I, B)
        self.stored2 = z3.Function("stored_pair", I, I, B)
        self.const, self.sense = z3.Real("constant"), z3.Int("sense")
        i, j = z3.Ints("i j")
        c, d = z3.Ints("c d")
        k, m = z3.Ints("k m")
        eng.facts += [n >= 1, nv >= 1, z3.Or(self.sense == 1, self.sense == -1),
                      z3.ForAll([i], z3.Or(self.stored(i), self.lin(i) == 0), patterns=[self.lin(i)]),
                      z3.ForAll([i, j], z3.Or(self.stored2(i, j), self.quad(i, j) == 0), patterns=[self.quad(i, j)]),
                      z3.ForAll([i, j], z3.Implies(i > j, self.quad(i, j) == 0), patterns=[self.quad(i, j)]),
                      z3.ForAll([k, m], BIT(iv(0), k, m) == 0, patterns=[BIT(iv(0), k, m)])]
        self.s = z3.ToReal(self.sense)
        self.calls = 0
        nat, H, ov, oh = eng.natives, eng.rec_handlers, eng.overrides, eng.obj_handlers
        # ---- the converted problem
        sense_cls = eng.resolve(PRE + "problems.quadratic_objective.ObjSense")

        lin = eng.new(ObjV("GLin", {"f": Rec("fn", {"f": self.lin})}))
        quad = eng.new(ObjV("GQuad", {"f": Rec("fn", {"f": self.quad})}))
        obj = self.obj = eng.new(ObjV("GObj", {"linear": lin, "quadratic": quad, "constant": self.const, "sense": SymEnum("ObjSense", self.sense), "Sense": sense_cls}))
        self.prog = eng.new(ObjV("GProg", {"objective": obj}))
        self.problem = Rec("program", {"which": "original"}, ("original program",))
        oh["GLin", "to_dict"] = lambda e, a, k: self.items(e, a, k, 1)
        oh["GQuad", "to_dict"] = lambda e, a, k: self.items(e, a, k, 2)
        oh["GLin", "to_array"] = oh["GQuad", "to_array"] = lambda e, a, k: Rec("coeffs", {"f": self.coef(e, a[0]), "symmetric": bool(len(a) > 1 or k), "n": n})
        H["coeffs", "__len__"] = lambda e, a, k: n
        for c in ("GLin", "GQuad"):
            eng.obj_ops[c, "__setitem__"] = self.write
            eng.obj_ops[c, "__getitem__"] = self.read
        oh["GObj", "evaluate"] = self.evaluate
        # ---- circuits
        nat["qiskit.QuantumRegister"] = nat["qiskit.circuit.QuantumRegister"] = NType("QuantumRegister", lambda e, a, k: Rec("register", {"size": lib.num(a[0])}, ("register", lib.num(a[0]))))
        nat["qiskit.QuantumCircuit"] = nat["qiskit.circuit.QuantumCircuit"] = NType("QuantumCircuit", lambda e, a, k: e.new(ObjV("Circuit", {"regs": tuple(a), "gates": ()})))

        def gate(nm):
            def f(e, a, k):
                c = e.cell(a[0])
                e.put(a[0], ObjV("Circuit", dict(c.fields, gates=c.fields["gates"] + ((nm,) + tuple(a[1:]),))))
            return f
        for nm in ("h", "z", "x"):
            oh["Circuit", nm] = gate(nm)

        def compose(e, a, k):
            if k.get("inplace") is not True or set(k) != {"inplace"} or len(a) != 2:
                raise Unsupported("compose")
            gate("compose")(e, a, {})
        oh["Circuit", "compose"] = compose

        def form(e, a, k):
            names = ["num_result_qubits", "quadratic", "linear", "offset", "little_endian"]
            at = dict(zip(names, a), **k)
            if set(at) - set(names):
                raise Unsupported("QuadraticForm")
            return Rec("form", dict({"num_result_qubits": None, "quadratic": None, "linear": None, "offset": None, "little_endian": True}, **at))
        nat["qiskit.circuit.library.QuadraticForm"] = NType("QuadraticForm", form)

        def amp(e, a, k):
            if a or not {"oracle", "state_preparation", "is_good_state"} >= set(k):
                raise Unsupported("AmplificationProblem")
            return Rec("amp", dict(k))
        nat["qiskit.algorithms.AmplificationProblem"] = NType("AmplificationProblem", amp)
        nat["qiskit.algorithms.amplitude_amplifiers.grover.Grover"] = nat["qiskit.algorithms.Grover"] = NType("Grover", lambda e, a, k: Rec("grover", {}))

        def construct(e, a, k):
            if set(k) - {"problem", "power", "measurement"} or len(a) > 1:
                raise Unsupported("construct_circuit")
            return Rec("circuit", {"problem": k["problem"]})
        H["grover", "construct_circuit"] = construct
        H["circuit", "count_ops"] = lambda e, a, k: Rec("operations", {})
        nat["qiskit.utils.algorithm_globals"] = Rec("globals", {"random": Rec("random", {})})
        H["random", "uniform"] = lambda e, a, k: lib.skolem(e, "random", R)
        nat["qiskit.quantum_info.partial_trace"] = NativeV("partial_trace", self.traced)
        nat["numpy.diag"] = NativeV("diag", lambda e, a, k: Rec("squares", {"o": a[0].attrs["o"]}))
        H["squares", "__pow__"] = self.root
        nat["numpy.ceil"] = NativeV("ceil", lambda e, a, k: math.ceil(a[0]) if isinstance(a[0], (int, float)) else z3.simplify(z3.ToReal(-z3.ToInt(-real(a[0])))))
        # ---- outcomes
        self.ghost = eng.new(ObjV("Ghost", {"best": None, "key": None, "o": None}))
        H["outcome", "__getitem__"] = self.part
        H["bits", "__getitem__"] = self.part
        H["outcome", "__len__"] = lambda e, a, k: n + nv
        H["bits", "startswith"] = self.starts
        H["bits", "__int__"] = self.number
        old_int = eng.builtins["int"]
        eng.builtins["int"] = NType("int", lambda e, a, k: self.number(e, a, k) if a and isinstance(a[0], Rec) and a[0].kind == "bits" else old_int.ctor(e, a, k))
        ov[GR + "GroverOptimizer._measure"] = NativeV("_measure", self.measure)
        ov[OA + "OptimizationAlgorithm._verify_compatibility"] = NativeV("_verify_compatibility", lambda e, a, k: None)
        ov[OA + "OptimizationAlgorithm._convert"] = NativeV("_convert", self.convert)
        ov[OA + "OptimizationAlgorithm._eigenvector_to_solutions"] = NativeV("_eigenvector_to_solutions", self.solutions)
        ov[OA + "OptimizationAlgorithm._interpret_samples"] = NativeV("_interpret_samples", self.interpret_samples)
        ov[OA + "OptimizationAlgorithm._interpret"] = NativeV("_interpret", self.interpret)
        H["raws", "sort"] = lambda e, a, k: None
        H["str", "__mod__"] = lambda e, a, k: Rec("format", {"n": lib.num(a[1])}) if isinstance(a[0], str) and a[0] in ("{0:%sb}", "{:%sb}", "{0:%db}", "{:%db}", "{0:0%sb}", "{:0%sb}", "{0:0%db}", "{:0%db}") else None
        H["format", "format"] = lambda e, a, k: self.digits(e, a[1], a[0].attrs["n"])
        H["digits", "__iter__"] = self.digit_list
        H["label", "__getitem__"] = self.counted
        oh["Grouped", "get"] = eng.obj_ops["Grouped", "__getitem__"] = self.grouped
        eng.obj_ops["Grouped", "__setitem__"] = self.fill
        eng.obj_ops["Grouped", "__contains__"] = lambda e, a, k: (self.same_key(a[1]), self.group["has"])[1] if self.group else lib.skolem(e, "member", B)
        H["results", "items"] = self.counts
        self.convs = Rec("converters", {}, ("converters",))
        eng.loop_hooks.append(self.grouping)
        qi = Rec("qi", {"is_statevector": statevector})
        self.me = eng.new(ObjV(eng.raw_class(GR + "GroverOptimizer"), {"_num_value_qubits": nv, "_num_key_qubits": None, "_n_iterations": z3.Int("num_iterations"),
                                                                     "_quantum_instance": qi, "_converters": self.convs, "_circuit_results": eng.new(DictV([], kind="dict"))}))
        self.count = {}

    # ---- coefficients
    def coef(self, e, ref):
        return e.cell(ref).fields["f"].attrs["f"]

    def items(self, e, a, k, dim):
        if len(a) > 1 or k:
            raise Unsupported("to_dict with options")
        f = self.coef(e, a[0])
        b = Binder(freshi(), iv(0), self.n)
        if dim == 1:
            return e.new(DictV([Piece([b], self.stored(b.var), b.var, f(b.var))], "dict"))
        c = Binder(freshi(), iv(0), self.n)
        return e.new(DictV([Piece([b, c], z3.And(self.stored2(b.var, c.var), b.var <= c.var), (b.var, c.var), f(b.var, c.var))], "dict"))

    def key(self, k):
        return tuple(lib.num(x) for x in k) if isinstance(k, tuple) else (lib.num(k),)

    def write(self, e, a, k):
        if self.rec is None:
            raise Unsupported("coefficient written outside a loop over all of them")
        self.rec.append((a[0].id, self.key(a[1]), real(a[2])))

    def read(self, e, a, k):
        key = self.key(a[1])
        if self.rec is not None and (any(r[0] == a[0].id for r in self.rec) or not all(x.eq(y) for x, y in zip(key, self.at))):
            raise Unsupported("coefficient read back")
        f = self.coef(e, a[0])
        return f(*key)

    rec = None

    def negating(self, eng, seq, assign, body, sc):
        """A loop over all stored coefficients that writes each of them."""
        if len(seq.segs) != 1 or not isinstance(seq.segs[0].val, tuple):
            return False
        sg = seq.segs[0]
        g = sg.guard
        vs = [b.var for b in sg.binders]
        if not (len(vs) == 1 and g.eq(self.stored(vs[0])) or len(vs) == 2 and any(c.eq(self.stored2(*vs)) for c in g.children())):
            return False
        self.rec, self.at = [], tuple(vs)
        pre, pc0, limit = dict(eng.cells), list(eng.pc), eng.next
        try:
            eng.pc = pc0 + [b.range() for b in sg.binders] + [g]
            out = []

            def one():
                self.rec = []
                assign(lib.materialise(eng, sg.val))
                body()
                out.append(self.rec)
            ps = eng.explore(one)
        finally:
            self.rec, eng.cells, eng.pc = None, pre, pc0
        from pv import loops
        if len(ps) != 1 or ps[0].out != "normal" or len(out[-1]) != 1:
            raise Unsupported("loop over coefficients")
        if any(c not in {x.id for x in sc.frames} for c, f in loops._mods(pre, ps[0].cells, limit)):
            raise Unsupported("loop over coefficients changes something else")
        cid, key, val = out[-1][0]
        if len(key) != len(vs) or not all(x.eq(y) for x, y in zip(key, vs)):
            raise Unsupported("loop over coefficients writes elsewhere")
        c = eng.cells[cid]
        old = c.fields["f"].attrs["f"]
        if (c.cls == "GLin") != (len(vs) == 1):
            raise Unsupported("loop over coefficients writes elsewhere")
        new = lambda *ix: z3.simplify(z3.If(subst(g, list(zip(vs, ix))), subst(val, list(zip(vs, ix))), old(*ix)))
        eng.cells[cid] = ObjV(c.cls, {"f": Rec("fn", {"f": new})})
        return True

    # ---- outcomes
    def part(self, e, a, k):
        v, key = a
        if v.kind == "outcome":
            o, lo, hi = v.attrs["o"], iv(0), self.n + self.nv
        else:
            o, lo, hi = (v.attrs[x] for x in ("o", "lo", "hi"))
        if not isinstance(key, slice):
            i = lib.num(key)
            if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() < 0:
                i = hi + i
            else:
                i = lo + i
            if not e.entailed(z3.And(i >= lo, i < hi)):
                raise Unsupported("character of an outcome")
            return z3.If(TOP(o, z3.simplify(i)), lib.as_name(e, "1"), lib.as_name(e, "0"))
        if key.step is not None:
            raise Unsupported("stepped slice of an outcome")
        a, b = [None if x is None else lib.num(x) for x in (key.start, key.stop)]
        if any(x is not None and not e.entailed(z3.And(x >= 0, x <= hi - lo)) for x in (a, b)):
            raise Unsupported("slice of an outcome out of range")
        return Rec("bits", {"o": o, "lo": z3.simplify(lo if a is None else lo + a), "hi": z3.simplify(hi if b is None else lo + b)})

    def number(self, e, a, k):
        v = a[0]
        if len(a) != 2 or lib.conc(a[1]) != 2:
            raise Unsupported("int of an outcome")
        return self.value(e, v.attrs["o"], v.attrs["lo"], v.attrs["hi"])

    def value(self, e, o, lo, hi):
        t = NUM(o, lo, hi)
        w = e.pow2(z3.simplify(hi - lo - 1))
        top = e.pow2(z3.simplify(hi - lo))
        e.aux_fact(z3.And(t >= 0, t < top, z3.Implies(hi > lo, z3.And(top == 2 * w, TOP(o, lo) == (t >= w)))))
        return t

    def starts(self, e, a, k):
        v = a[0]
        if a[1] not in ("0", "1") or not e.entailed(v.attrs["hi"] > v.attrs["lo"]):
            raise Unsupported("startswith")
        self.value(e, v.attrs["o"], v.attrs["lo"], v.attrs["hi"])
        t = TOP(v.attrs["o"], v.attrs["lo"])
        return t if a[1] == "1" else z3.Not(t)

    def digits(self, e, v, width):
        return Rec("digits", {"v": lib.num(v), "n": width})

    def digit_list(self, e, a, k):
        v, n = a[0].attrs["v"], a[0].attrs["n"]
        b = Binder(freshi(), iv(0), n)
        return SeqV([Seg([b], TRUE, z3.If(BIT(v, n, b.var) == 1, lib.as_name(e, "1"), lib.as_name(e, "0")))])

    def traced(self, e, a, k):
        v = a[1]
        q = e.cell(v) if isinstance(v, Ref) else v
        if k or not (isinstance(q, (ListV, SeqV)) and len(q.segs) == 1 and len(q.segs[0].binders) == 1 and z3.is_true(q.segs[0].guard)):
            raise Unsupported("qubits traced out")
        b = q.segs[0].binders[0]
        i = z3.Int("any_i")
        d = z3.simplify(lib.num(q.segs[0].val) - b.var)
        self.log(e, "search: exactly the value register is traced out of the state", z3.And(b.lo + subst(d, [(b.var, b.lo)]) == self.n, b.hi + subst(d, [(b.var, b.hi)]) == self.n + self.nv,
                                                                                         z3.Implies(z3.And(b.lo <= i, i < b.hi), subst(d, [(b.var, i)]) == subst(d, [(b.var, b.lo)]))))
        return Rec("rho", {"data": Rec("rhodata", {"o": a[0].attrs["o"]})})

    def root(self, e, a, k):
        if lib.conc(a[1]) not in (0.5, Fraction(1, 2)):
            raise Unsupported("power of the diagonal")
        return Rec("reduced", {"o": a[0].attrs["o"]})

    # ---- the calls
    def log(self, e, nm, goal, detail=""):
        if e.analysing:
            return
        self.count[nm] = self.count.get(nm, 0) + 1
        nm = "%s (%d)" % (nm, self.count[nm])
        if isinstance(goal, bool):
            self.ctx.fact(nm, goal, detail)
        else:
            self.ctx.valid(nm, e.facts + e.pc, goal)

    def measure(self, e, a, k):
        c = a[1]
        if not (isinstance(c, Rec) and c.kind == "circuit" and isinstance(c.attrs["problem"], Rec)):
            raise Unsupported("measured circuit")
        at = c.attrs["problem"].attrs
        prep, oracle = (e.cell(at[x]).fields["gates"] for x in ("state_preparation", "oracle"))
        fs = [g for g in prep if g[0] == "compose"]
        if len(fs) != 1 or not isinstance(fs[0][1], Rec) or fs[0][1].kind != "form" or len(fs[0]) != 2 or [g[0] for g in prep] != ["h", "compose"] or [g[0] for g in oracle] != ["z"]:
            raise Unsupported("state preparation of another form")
        f = fs[0][1].attrs
        if f["little_endian"] is not False or any(not isinstance(f[x], Rec) or f[x].kind != "coeffs" or f[x].attrs["symmetric"] for x in ("quadratic", "linear")):
            raise Unsupported("quadratic form of another shape")
        n, nv = self.n, self.nv
        h = prep[0][1]
        q = e.cell(h) if isinstance(h, Ref) else h
        if not (isinstance(q, (ListV, SeqV)) and len(q.segs) == 1 and len(q.segs[0].binders) == 1 and z3.is_true(q.segs[0].guard)):
            raise Unsupported("qubits of the superposition")
        b = q.segs[0].binders[0]
        i, j = z3.Ints("any_i any_j")
        ok = z3.And(b.lo == 0, b.hi == n, z3.Implies(z3.And(i >= 0, i < n), subst(lib.num(q.segs[0].val), [(b.var, i)]) == i))
        self.log(e, "search: superposition over the key register", ok)
        self.log(e, "search: the oracle marks negative values (most significant qubit of the value register)", lib.num(oracle[0][1]) == n)
        self.log(e, "search: size of the value register", lib.num(f["num_result_qubits"]) == nv)
        r = lambda i, hi: z3.And(i >= 0, i < hi)
        self.log(e, "search: linear coefficients of the sense-adjusted objective are encoded", z3.Implies(r(i, n), f["linear"].attrs["f"](i) == self.s * self.lin(i)))
        self.log(e, "search: quadratic coefficients of the sense-adjusted objective are encoded", z3.Implies(z3.And(r(i, n), r(j, n), i <= j), f["quadratic"].attrs["f"](i, j) == self.s * self.quad(i, j)))
        thr = self.s * self.const - real(f["offset"])
        o = lib.skolem(e, "outcome", Out)
        u = self.value(e, o, n, z3.simplify(n + nv))
        v = z3.ToReal(z3.If(2 * u >= e.pow2(nv), u - e.pow2(nv), u)) + thr
        key = self.value(e, o, iv(0), n)
        g = e.cell(self.ghost).fields
        if g["best"] is None:
            new = {"best": v, "key": key, "o": o}
            self.log(e, "search: the first circuit encodes the objective itself", thr == 0)
        else:
            self.log(e, "search: later circuits encode the objective minus the best value so far", thr == g["best"])
            better = v < g["best"]
            new = {"best": v, "key": key, "o": o} if e.branch(better) else g
        e.put(self.ghost, ObjV("Ghost", new))
        e.setattr(a[0], "_circuit_results", Rec("results", {"o": o}))
        return Rec("outcome", {"o": o})

    def convert(self, e, a, k):
        self.log(e, "solve: the problem is converted by the optimizer's converters", len(a) >= 2 and not k and a[-2] is self.problem and a[-1] is self.convs)
        return self.prog

    def evaluate(self, e, a, k):
        self.log(e, "solve: the value before interpretation is that of the unmodified converted objective", self.pristine(e, obj=a[0]))
        return Rec("value", {"x": a[1]})

    def pristine(self, e, ref=None, obj=None):
        """The objective of a program object is the converted one, unmodified."""
        o = e.cell(obj if obj is not None else e.cell(ref).fields["objective"]).fields
        i, j = z3.Ints("any_i any_j")
        r = lambda i: z3.And(i >= 0, i < self.n)
        return z3.And(real(o["constant"]) == self.const, lib.num(lib.enum_term(o["sense"])) == self.sense,
                      z3.Implies(r(i), self.coef(e, o["linear"])(i) == self.lin(i)),
                      z3.Implies(z3.And(r(i), r(j), i <= j), self.coef(e, o["quadratic"])(i, j) == self.quad(i, j)))

    def solutions(self, e, a, k):
        v, pr = a[-2:]
        v = e.cell(v).fields.get("of") if isinstance(v, Ref) and isinstance(e.cell(v), ObjV) else v
        if k or not isinstance(v, Rec) or v.kind not in ("reduced", "results"):
            raise Unsupported("state of the samples")
        self.log(e, "solve: samples are evaluated on the unmodified converted problem", self.pristine(e, pr))
        return Rec("raws", {"o": v.attrs["o"]})

    def interpret_samples(self, e, a, k):
        at = dict(zip(["problem", "raw_samples", "converters"], a[-3:]), **k)
        if set(at) != {"problem", "raw_samples", "converters"} or not isinstance(at["raw_samples"], Rec):
            raise Unsupported("_interpret_samples")
        self.log(e, "solve: samples are interpreted in the original problem", at["problem"] is self.problem and at["converters"] is self.convs)
        return Rec("samples", {"o": at["raw_samples"].attrs["o"]})

    def interpret(self, e, a, k):
        if len(a) > 1:
            raise Unsupported("positional arguments of _interpret")
        return Rec("result", dict(k))

    def counts(self, e, a, k):
        o = a[0].attrs["o"]
        b = Binder(freshi(), iv(0), SIZE(o))
        return SeqV([Seg([b], TRUE, (Rec("label", {"o": o, "i": b.var, "lo": iv(0), "hi": self.n + self.nv, "rev": False}), AMP(o, b.var)))])

    def counted(self, e, a, k):
        """Part of the label of a count."""
        v, key = a
        at = v.attrs
        if not isinstance(key, slice):
            raise Unsupported("character of a label")
        if key.step is not None:
            if lib.conc(key.step) != -1 or key.start is not None or key.stop is not None:
                raise Unsupported("stepped slice of a label")
            return Rec("label", dict(at, rev=not at["rev"]))
        a, b = [None if x is None else lib.num(x) for x in (key.start, key.stop)]
        if at["rev"] or any(x is not None and not e.entailed(z3.And(x >= 0, x <= at["hi"] - at["lo"])) for x in (a, b)):
            raise Unsupported("slice of a label")
        return Rec("label", dict(at, lo=z3.simplify(at["lo"] if a is None else at["lo"] + a), hi=z3.simplify(at["hi"] if b is None else at["lo"] + b)))

    group = None

    def grouped(self, e, a, k):
        """Reading the dictionary being filled: the present value for the key (or the default)."""
        if self.group is None or k:
            raise Unsupported("grouped counts read")
        self.same_key(a[1])
        return z3.If(self.group["has"], self.group["cur"], real(a[2])) if len(a) == 3 else self.group["cur"]

    def same_key(self, key):
        old = self.group.setdefault("key", key)
        if not isinstance(key, Rec) or key.kind != "label" or key.attrs.keys() != old.attrs.keys() or any(not (x is y or isz(x) and isz(y) and x.eq(y)) for x, y in zip(key.attrs.values(), old.attrs.values())):
            raise Unsupported("grouped counts: keys")

    def grouping(self, eng, seq, assign, body, sc):
        """The loop that adds the squared amplitudes up per part of the label."""
        if len(seq.segs) != 1 or not isinstance(seq.segs[0].val, tuple) or not isinstance(seq.segs[0].val[0], Rec) or seq.segs[0].val[0].kind != "label":
            return self.negating(eng, seq, assign, body, sc)
        o = seq.segs[0].val[0].attrs["o"]
        pre, pc0, limit = dict(eng.cells), list(eng.pc), eng.next
        frames = {x.id for x in sc.frames}
        empty = {c for f in frames for v in eng.cells[f].fields.values() if isinstance(v, Ref) for c in [v.id] if isinstance(eng.cells[c], DictV) and not eng.cells[c].pieces and not eng.cells[c].base}
        start = dict(pre)
        for c in empty:
            start[c] = ObjV("Grouped", {"of": None})
        out = []

        def one():
            eng.cells = dict(start)
            self.group = {"has": lib.skolem(eng, "present", B), "cur": lib.skolem(eng, "sum_so_far", R)}
            assign(lib.materialise(eng, seq.segs[0].val))
            body()
            out.append((self.group, dict(eng.cells)))
        try:
            eng.pc = pc0 + [b.range() for b in seq.segs[0].binders]
            ps = eng.explore(one)
        finally:
            self.group, eng.cells, eng.pc = None, pre, pc0
        if not out or any(p.out != "normal" for p in ps) or len(out) != len(ps):
            raise Unsupported("loop over counts")
        mods = set()
        from pv import loops
        target = None
        for p, (g, cells) in zip(ps, out):
            mods |= loops._mods(start, cells, limit)
            w = g.get("write")
            if w is None or w[0] not in empty or target not in (None, w[0]):
                raise Unsupported("loop over counts")
            target = w[0]
            key, val = w[1].attrs, w[2]
            old = z3.If(g["has"], g["cur"], z3.RealVal(0))
            amp = real(seq.segs[0].val[1])
            facts = [f for f in eng.facts + p.pc if not z3.is_quantifier(f)]
            same = z3.And(val == old + amp * amp, key["lo"] == 0, key["hi"] == self.n)
            if not key["rev"] or not key["o"].eq(o) or norm.check(facts + [z3.Not(same)], 3000)[0] != z3.unsat:
                raise Unsupported("counts grouped otherwise")
        if any(c not in frames for c, f in mods):
            raise Unsupported("loop over counts changes something else")
        for c, f in mods:
            if f is None:
                raise Unsupported("loop over counts")
            eng.cells[c] = ObjV(eng.cells[c].cls, dict(eng.cells[c].fields, **{f: Poison("last value in a loop over counts")}))
        eng.cells[target] = ObjV("Grouped", {"of": Rec("reduced", {"o": o})})
        return True

    def fill(self, e, a, k):
        if self.group is None or "write" in self.group:
            raise Unsupported("grouped counts written")
        self.same_key(a[1])
        self.group["write"] = (a[0].id, a[1], real(a[2]))


def solve(ctx, statevector):
    S = Search(ctx, statevector)
    eng = S.eng
    tag = "solve (%s)" % ("state vector" if statevector else "counts")
    done = 0
    for u, p in enumerate(eng.explore(lambda: eng.call(eng.getattr(S.me, "solve"), [S.problem]))):
        nm = "%s path %d: " % (tag, u)
        facts = eng.facts + p.pc
        if p.out == "raise":
            ctx.fact(nm + "does not raise", False, str(p.val))
            continue
        done += 1
        r = p.val
        if not (isinstance(r, Rec) and r.kind == "result"):
            raise Unsupported("result %r" % (r,))
        at = r.attrs
        g = p.cells[S.ghost.id].fields
        ctx.fact(nm + "at least one measurement", g["best"] is not None)
        ctx.fact(nm + "the result is interpreted in the original problem by all converters", at.get("problem") is S.problem and at.get("converters") is S.convs and getattr(at.get("result_class"), "name", "") == "GroverOptimizationResult")
        ctx.valid(nm + "the threshold reported is the least value measured", facts, real(at["threshold"]) == g["best"])
        if not isinstance(at["samples"], Rec):
            raise Unsupported("samples %r" % (at["samples"],))
        ctx.valid(nm + "the samples are those of the last accepted measurement", facts, z3.And(at["samples"].attrs["o"] == g["o"], at["raw_samples"].attrs["o"] == g["o"]))
        i = z3.Int("any_i")
        ln, xi = vec_at(eng, at["x"], i, p.cells)
        ctx.valid(nm + "one entry per key qubit", facts, z3.And(ln == S.n, lib.num(at["n_input_qubits"]) == S.n, lib.num(at["n_output_qubits"]) == S.nv))
        f = at.get("intermediate_fval")
        if isinstance(f, Rec) and f.kind == "value":
            lf, xf = vec_at(eng, f.attrs["x"], i, p.cells)
            ctx.valid(nm + "the value before interpretation is that of the reported point", facts + [i >= 0, i < S.n], z3.And(lf == S.n, xf == xi))
        eng.cells, cells = p.cells, eng.cells
        try:
            ctx.valid(nm + "the converted program is not modified", facts, S.pristine(eng, S.prog))
        finally:
            eng.cells = cells
        zero = z3.And(g["best"] >= 0, S.const == 0)
        ctx.valid(nm + "variable i is character i of the last accepted key (or the zero point if it is optimal)", facts + [i >= 0, i < S.n],
                  xi == z3.If(zero, z3.RealVal(0), z3.If(BIT(g["key"], S.n, i) == 1, z3.RealVal(1), z3.RealVal(0))))
        ctx.valid(nm + "the zero point is used only if its value is no worse than the least value measured", facts + [zero], S.s * S.const <= g["best"])
    ctx.fact(tag + ": some path returns", done > 0)
    ctx.side(eng, prefix=tag + ": ")


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("a run of the search circuit yields an arbitrary outcome of as many characters as there are qubits (qubit i is character i); GroverOptimizer._measure sets the state the samples are read from to that of the circuit it ran",
               "qiskit's QuadraticForm, with little_endian=False, writes the value of the quadratic form given by its coefficients on the key register into the value register in two's complement, most significant qubit first",
               "int(bits, 2) reads binary digits most significant first; '{0:Nb}'.format writes them (blanks in front) with zero written without ones",
               "the converters' contracts (C01-C09) and those of OptimizationAlgorithm (_convert, _interpret, _eigenvector_to_solutions, _interpret_samples: C12) are used, not their bodies",
               "2 ** (n/2), ceilings of floats and random numbers are arbitrary reals; real arithmetic stands for floating point",
               "while loops: partial correctness (termination of the search is checked by the run-time check)")
    ctx.beyond("GroverOptimizer._measure and _get_probs", "string reversal and the choice of an outcome by a random generator; run-time check with every outcome forced")
    for sv in (True, False):
        ctx.contract("GroverOptimizer.solve (%s)" % ("state vector" if sv else "counts"), lambda c, sv=sv: solve(c, sv), par=True)
