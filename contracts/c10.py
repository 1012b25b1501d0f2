"""C10: QuadraticProgram.to_ising and from_ising.

Operators are modelled by the diagonal entry ("energy") of the basis state given by the generic point x:
a Pauli-Z string has energy prod (1 - 2 x_i) over its mask, sums and scalar multiples are linear.
"""
import time
from .common import *
from pv.values import *

F0 = z3.BoolVal(False)
BITP = z3.Const("qn", Name)
BITS = [z3.ForAll([BITP], z3.Or(pt(BITP) == 0, pt(BITP) == 1), patterns=[pt(BITP)]),
        z3.ForAll([BITP], pt(BITP) * pt(BITP) == pt(BITP), patterns=[pt(BITP)])]


def bit(k):
    return pt(V(k))


def op(e, n, kind="PauliOp"):
    return Rec("op", {"e": z3.simplify(real(e)), "n": lib.num(n), "k": kind})


def arr_cell(eng, v):
    c = eng.cell(v) if isinstance(v, Ref) else v
    if not (isinstance(c, DictV) and c.kind == "arr" and len(c.shape) == 1 and c.base is None):
        raise Unsupported("Pauli mask")
    return c


def pauli(eng, a, k):
    if len(a) != 1 or k or not (isinstance(a[0], tuple) and len(a[0]) == 2):
        raise Unsupported("Pauli constructor")
    z, x = (arr_cell(eng, v) for v in a[0])
    n = lib.num(z.shape[0])
    eng.obls.append(("Pauli masks have equal length", list(eng.pc), n == lib.num(x.shape[0])))
    e = z3.RealVal(1)
    for p in x.pieces:
        nb, g, v = refresh(p.binders, p.guard, p.val)
        eng.obls.append(("operator is diagonal", list(eng.pc), z3.Implies(band(*[b.range() for b in nb] + [g]), real(v) == 0)))
    for p in z.pieces:
        if p.binders or p.mode != "set":
            raise Unsupported("Pauli mask")
        e = e * z3.If(band(p.guard, real(p.val) != 0), 1 - 2 * bit(p.key[0]), z3.RealVal(1))
    return Rec("pauli", {"e": e, "n": n})


def pauli_op(eng, a, k):
    vals = dict(zip(["primitive", "coeff"], a))
    vals.update(k)
    p = vals["primitive"]
    if not (isinstance(p, Rec) and p.kind == "pauli"):
        raise Unsupported("PauliOp of %r" % (p,))
    return op(real(vals.get("coeff", 1.0)) * p.attrs["e"], p.attrs["n"])


def op_sum(eng, a, k):
    """sum of operators: 0 if there is none."""
    if len(a) != 1 or k:
        return lib.seq_sum(eng, a[0], a[1] if len(a) > 1 else k.get("start", 0))
    s = lib.iterate(eng, a[0])
    if not s.segs or not all(isinstance(g.val, Rec) and g.val.kind == "op" for g in s.segs):
        return lib.seq_sum(eng, s)
    some = bor(*[mk_exists(g.binders, g.guard) for g in s.segs])
    if not eng.branch(some):
        return 0
    n = s.segs[0].val.attrs["n"]
    e = z3.RealVal(0)
    for g in s.segs:
        if not g.val.attrs["n"].eq(n):
            raise Unsupported("operators of different sizes")
        e = e + mk_sum(g.binders, g.guard, lib.undg(g.val.attrs["e"]))
    return op(e, n, "SummedOp")


def scaled(eng, a, k):
    return op(a[0].attrs["e"] * real(a[1]), a[0].attrs["n"], a[0].attrs["k"])


def added(eng, a, k):
    x, y = a
    if lib.is_zero(y):
        return x
    if not (isinstance(y, Rec) and y.kind == "op" and y.attrs["n"].eq(x.attrs["n"])):
        raise Unsupported("sum of operators")
    return op(x.attrs["e"] + y.attrs["e"], x.attrs["n"], "SummedOp")


def power(eng, a, k):
    """op ^ k: tensor power; modelled for multiples c * I of the identity on one qubit (energy c^k: c = 0 or 1)."""
    c = z3.simplify(a[0].attrs["e"])
    if not (z3.is_rational_value(c) and c.as_fraction() in (0, 1)) or not z3.is_int_value(a[0].attrs["n"]):
        raise Unsupported("tensor power")
    m = lib.num(a[1])
    eng.obls.append(("tensor power of at least one factor", list(eng.pc), m >= 1))
    return op(c, z3.simplify(m * a[0].attrs["n"]), a[0].attrs["k"])


def install(eng):
    N = lambda f: NativeV("", f)
    for m in ("qiskit.opflow", "qiskit.opflow.primitive_ops", "qiskit.opflow.list_ops"):
        eng.natives[m + ".PauliOp"] = NType(m + ".PauliOp", pauli_op)
        eng.natives[m + ".I"] = op(1, 1)
        for t in ("PauliSumOp", "SummedOp", "OperatorBase", "ListOp"):
            eng.natives[m + "." + t] = NType(m + "." + t)
    eng.natives["qiskit.quantum_info.Pauli"] = NType("qiskit.quantum_info.Pauli", pauli)
    eng.builtins["sum"] = N(op_sum)
    H = eng.rec_handlers
    H["op", "__mul__"] = H["op", "__rmul__"] = scaled
    H["op", "__add__"] = H["op", "__radd__"] = added
    H["op", "__xor__"] = power
    H["op", "reduce"] = lambda e, a, k: a[0]
    H["cplx", "__neg__"] = lambda e, a, k: Rec("cplx", {"real": -a[0].attrs["real"], "imag": -a[0].attrs["imag"]})
    old = eng.rec_isinstance

    def isinst(v, t):
        n = lib.type_name(t)
        if v.kind == "op":
            return n == "OperatorBase" or n == v.attrs["k"] or n == "ListOp" and v.attrs["k"] == "SummedOp"
        if v.kind == "iop":
            return n == "OperatorBase" or n == v.attrs["k"] or n == "ListOp" and v.attrs["k"] == "SummedOp"
        return old(v, t)
    eng.rec_isinstance = isinst


def to_ising(ctx):
    eng = setup()
    install(eng)
    eng.count_split = True
    src = Src(eng, min_vars=1)
    cls = eng.raw_class(aprog.QP)

    def go():
        return eng.call(eng.member(src.ref, cls, cls.members["to_ising"]), [])
    paths = eng.explore(go)
    ctx.vac["paths"] += len(paths)
    i = z3.Int("qi")
    nonbin = z3.Exists([i], z3.And(i >= 0, i < src.n, src.vt(i) != 1))
    bad = z3.Or(nonbin, src.m > 0, src.q > 0)
    for k, p in enumerate(paths):
        facts = eng.facts + p.pc
        nm = "to_ising path %d: " % k
        ctx.fact(nm + "input not modified", src.untouched(p.cells))
        if p.out == "raise":
            ctx.fact(nm + "raises QiskitOptimizationError", p.val.cls == "QiskitOptimizationError" or getattr(p.val.cls, "name", "") == "QiskitOptimizationError", str(p.val))
            raised_ok(ctx, nm, eng, facts, src)
            continue
        accepted(ctx, nm, eng, facts, src)
        o, off = p.val
        if not ctx.fact(nm + "an operator is returned", isinstance(o, Rec) and o.kind == "op", str(o)[:200]):
            continue
        ctx.valid(nm + "one qubit per variable", facts, o.attrs["n"] == src.n)
        ctx.eq(nm + "energy + offset = sense * objective", facts + BITS, o.attrs["e"] + real(off), z3.ToReal(src.sense) * src.obj_val())
    ctx.fact("to_ising has a non-raising path", any(p.out == "normal" for p in paths))
    ctx.side(eng, prefix="to_ising: ")
    return eng


def raised_ok(ctx, nm, eng, facts, src):
    """raises only for a non-binary variable or a constraint."""
    i = z3.Int("qi")
    allbin = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < src.n), src.vt(i) == 1), patterns=[src.vt(i)])
    ctx.valid(nm + "raises only for non-binary variables or constraints", facts + [allbin, src.m == 0, src.q == 0], F0)


def accepted(ctx, nm, eng, facts, src):
    w = z3.Int("w")
    ctx.valid(nm + "accepts only binary unconstrained programs", facts, z3.And(src.m == 0, src.q == 0))
    ctx.valid(nm + "accepts only binary variables", facts + [w >= 0, w < src.n], src.vt(w) == 1)


K, P1, P2, P3, PX = (z3.Function(x, I, I) for x in ("numZ", "posZ1", "posZ2", "posZ3", "posX"))
ZR, XR = z3.Function("restZ", I, I, B), z3.Function("restX", I, I, B)
X = z3.Function("hasX", I, B)
CR, CI, PH = z3.Function("coefRe", I, R), z3.Function("coefIm", I, R), z3.Function("phase", I, I)
T, N = z3.Int("terms"), z3.Int("qubits")


def input_facts():
    t = z3.Int("qt")
    pats = [K(t), P1(t), P2(t), P3(t), PX(t), PH(t)]
    body = z3.And(K(t) >= 0, P1(t) >= 0, P1(t) < N, z3.Implies(K(t) >= 2, z3.And(P1(t) < P2(t), P2(t) < N)),
                  z3.Implies(K(t) >= 3, z3.And(P2(t) < P3(t), P3(t) < N)), PX(t) >= 0, PX(t) < N, PH(t) >= 0, PH(t) <= 3)
    return [N >= 1, T >= 1] + [z3.ForAll([t], body, patterns=[x]) for x in pats]


def seg(lo, hi, val):
    b = Binder(freshi(), z3.IntVal(0), z3.simplify(hi - lo))
    return Seg([b], TRUE, val(z3.simplify(b.var + lo)) if callable(val) else val)


def mask_list(eng, m):
    """The mask as a list of booleans, split at its first True entries."""
    t, z = m.attrs["t"], m.attrs["which"] == "z"
    o = z3.IntVal(0)
    if not z:
        if not eng.branch(X(t)):
            return eng.new(ListV([seg(o, N, False)]))
        return eng.new(ListV([seg(o, PX(t), False), elem(True), seg(PX(t) + 1, N, lambda v: XR(t, v))]))
    segs, last = [], o
    for k, f in enumerate((P1, P2, P3)):
        if eng.branch(K(t) == k):
            return eng.new(ListV(segs + [seg(last, N, False)]))
        segs += [seg(last, f(t), False), elem(True)]
        last = f(t) + 1
    return eng.new(ListV(segs + [seg(last, N, lambda v: ZR(t, v))]))


PRE_, PIM = z3.Function("re_minus_i_to", I, R), z3.Function("im_minus_i_to", I, R)


def cplx(re, im):
    return Rec("cplx", {"real": re, "imag": im})


def cmul(eng, a, k):
    x, y = a
    xr, xi = real(x.attrs["real"]), real(x.attrs["imag"])
    if isinstance(y, Rec) and y.kind == "cplx":
        yr, yi = real(y.attrs["real"]), real(y.attrs["imag"])
        return cplx(z3.simplify(xr * yr - xi * yi), z3.simplify(xr * yi + xi * yr))
    return cplx(xr * real(y), xi * real(y))


def cpow(eng, a, k):
    x, n = a
    n = lib.num(n)
    c = tuple(lib.conc(x.attrs[f]) for f in ("real", "imag"))
    if c not in ((0, -1), (0, 1)):
        raise Unsupported("complex power")
    return cplx(PRE_(n), PIM(n) * z3.RealVal(-int(c[1])))


def install_import(eng):
    install(eng)
    H = eng.rec_handlers
    term = lambda t: Rec("iop", {"k": "PauliOp", "t": t, "num_qubits": N, "primitive": Rec("ipauli", {"t": t}), "coeff": cplx(CR(t), CI(t))})

    def to_pauli(e, a, k):
        if a[0].attrs["k"] == "PauliOp":
            return a[0]
        if e.branch(T == 1):
            return term(z3.IntVal(0))
        return Rec("iop", {"k": "SummedOp", "num_qubits": N})

    def iterate(e, a, k):
        if a[0].attrs["k"] != "SummedOp":
            raise Unsupported("iteration over an operator")
        b = Binder(freshi(), z3.IntVal(0), T)
        return SeqV([Seg([b], TRUE, term(b.var))])
    H["iop", "to_pauli_op"], H["iop", "__iter__"] = to_pauli, iterate
    H["ipauli", "z"] = (lambda e, o: Rec("mask", {"t": o.attrs["t"], "which": "z"}),)
    H["ipauli", "x"] = (lambda e, o: Rec("mask", {"t": o.attrs["t"], "which": "x"}),)
    H["ipauli", "phase"] = (lambda e, o: PH(o.attrs["t"]),)
    H["mask", "tolist"] = lambda e, a, k: mask_list(e, a[0])
    H["mask", "__iter__"] = lambda e, a, k: lib.iterate(e, mask_list(e, a[0]))
    H["cplx", "__mul__"] = H["cplx", "__rmul__"] = cmul
    H["cplx", "__pow__"] = cpow
    eng.builtins["type"] = NativeV("", lambda e, a, k: eng.natives["qiskit.opflow." + a[0].attrs["k"]] if isinstance(a[0], Rec) and a[0].kind == "iop"
                                   else lib.b_type(e, a, k))


def from_ising(form, linear):
    def fn(ctx):
        eng = setup()
        install_import(eng)
        eng.facts += input_facts()
        off = z3.Real("offset_arg")
        cls = eng.raw_class(aprog.QP)
        if form == "PauliOp":
            eng.facts.append(T == 1)
        o = Rec("iop", {"k": form, "num_qubits": N})
        if form == "PauliOp":
            o = Rec("iop", {"k": form, "t": z3.IntVal(0), "num_qubits": N, "primitive": Rec("ipauli", {"t": z3.IntVal(0)}), "coeff": cplx(CR(0), CI(0))})

        def go():
            r = aprog.new_prog(eng, [], {})
            eng.call(eng.member(r, cls, cls.members["from_ising"]), [o, off], {"linear": linear})
            return r
        paths = eng.explore(go)
        ctx.vac["paths"] += len(paths)
        t, w = z3.Int("qt"), z3.Int("w")
        for k, p in enumerate(paths):
            nm = "from_ising[%s, linear=%s] path %d: " % (form, linear, k)
            facts = eng.facts + p.pc
            if p.out == "raise":
                ctx.fact(nm + "raises QiskitOptimizationError", "QiskitOptimizationError" in str(p.val.cls), str(p.val))
                fine = z3.ForAll([t], z3.And(K(t) <= 2, z3.Not(X(t))), patterns=[K(t)])
                fine2 = z3.ForAll([t], z3.Not(X(t)), patterns=[X(t)])
                ctx.valid(nm + "raises only for Paulis X, Y or more than two Zs", facts + [fine, fine2], F0)
                continue
            ctx.valid(nm + "no term with X, Y or more than two Zs is accepted", facts + [w >= 0, w < T], z3.And(K(w) <= 2, z3.Not(X(w))))
            F = p.cells[p.val.id].fields
            segs = p.cells[F["vars"].id].segs
            if not ctx.fact(nm + "one variable per qubit (shape)", len(segs) == 1 and len(segs[0].binders) == 1, str(segs)[:200]):
                continue
            s = segs[0]
            b = s.binders[0]
            at = s.val.attrs
            ctx.valid(nm + "one binary variable per qubit", facts + [b.range()], z3.And(b.lo == 0, b.hi == N, s.guard, lib.enum_term(at["vartype"]) == 1,
                                                                                       real(at["lowerbound"]) == 0, real(at["upperbound"]) == 1))
            names_distinct(ctx, nm, eng, facts, p.cells, p.val)
            ctx.fact(nm + "no constraints", not p.cells[F["lcons"].id].segs and not p.cells[F["qcons"].id].segs)
            obj = F["objective"]
            ctx.valid(nm + "minimised", facts, lib.enum_term(obj.attrs["sense"]) == 1)
            sp = lambda i: 1 - 2 * pt(subst(at["name"], [(b.var, i)]))
            tb = Binder(freshi(), z3.IntVal(0), T)
            v = tb.var
            re_ = CR(v) * PRE_(PH(v)) - CI(v) * PIM(PH(v))
            e = z3.If(K(v) == 0, z3.RealVal(1), z3.If(K(v) == 1, sp(P1(v)), sp(P1(v)) * sp(P2(v))))
            one = norm.check(facts + [T != 1], 2000)[0] == z3.unsat
            want = off + (subst(re_ * e, [(v, z3.IntVal(0))]) if one else mk_sum([tb], TRUE, re_ * e))
            clean = z3.ForAll([t], K(t) <= 2, patterns=[K(t)])
            diag = z3.ForAll([t], z3.Not(X(t)), patterns=[X(t)])
            ctx.eq(nm + "objective = offset + energy", facts + BITS + [clean, diag], aprog.obj_value(obj), want)
            d = aprog.named(obj.attrs["linear"] if not linear else obj.attrs["quadratic"], 1 if not linear else 2)
            for q in d.pieces:
                hyp = facts + [x.range() for x in q.binders] + [q.guard]
                if linear:
                    ctx.valid(nm + "no squares if linear", hyp, q.key[0] != q.key[1])
                else:
                    ctx.valid(nm + "no linear terms unless linear", hyp, F0)
        ctx.fact("from_ising[%s, linear=%s] has a non-raising path" % (form, linear), any(p.out == "normal" for p in paths))
        ctx.side(eng, prefix="from_ising[%s]: " % form)
        return eng
    return fn


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("opflow: Pauli((z, x)) with x = 0 is the diagonal operator prod (1 - 2 x_i) over the mask z; PauliOp, sums, scalar "
               "multiples and reduce() are linear in the energy; c * I ^ k is the multiple of the identity on k qubits")
    ctx.contract("QuadraticProgram.to_ising", to_ising)
    ctx.assume("opflow: to_pauli_op() of a PauliSumOp or SummedOp is the sum of its Pauli terms; Pauli.phase k stands for (-i)^k",
               "from_ising is called on an empty program")
    for form in ("PauliSumOp", "SummedOp", "PauliOp"):
        for linear in (False, True):
            ctx.contract("QuadraticProgram.from_ising[%s, linear=%s]" % (form, linear), from_ising(form, linear), par=True)
