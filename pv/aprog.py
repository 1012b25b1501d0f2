"""Contract of QuadraticProgram's public interface, used when its callers are verified.

The contract itself is established from the real classes by contracts C01-C05.  A program is
  variables   : sequence of records (name, lowerbound, upperbound, vartype)
  objective   : constant, name-keyed linear and quadratic coefficients, sense
  constraints : sequences of records (name, coefficients, sense, rhs)
The value of an expression at a point pt : Name -> Real is the sum of coefficient * pt(name) (* pt(name')).
"""
import z3

from .terms import *
from .values import *
from . import lib
from .lib import num, as_name, namelike, MISSING

pt = z3.Function("pt", Name, R)
VT = {"CONTINUOUS": 0, "BINARY": 1, "INTEGER": 2}
LE, GE, EQ = 0, 1, 2
SENSES = {"E": EQ, "L": LE, "G": GE, "EQ": EQ, "LE": LE, "GE": GE, "=": EQ, "==": EQ, "<=": LE, "<": LE, ">=": GE, ">": GE}
QP = "qiskit_optimization.problems.quadratic_program.QuadraticProgram"


def V(i, prog=0):
    return Name.V(z3.IntVal(prog), i)


def iv(k):
    return z3.IntVal(k)


class Src:
    """Symbolic input program."""

    def __init__(self, eng, tag="", with_l=True, with_q=True, integral_bounds=True, min_vars=0):
        t = tag
        self.tag = tag
        self.prog = lib.strtag("prog" + tag) if tag else 0
        self.n, self.m, self.q = z3.Int("n" + t), z3.Int("m" + t), z3.Int("q" + t)
        F = z3.Function
        self.vt, self.lb, self.ub = F("vt" + t, I, I), F("lb" + t, I, R), F("ub" + t, I, R)
        self.const, self.sense = z3.Real("const" + t), z3.Int("sense" + t)
        self.L, self.stL = F("L" + t, I, R), F("stL" + t, I, B)
        self.Q, self.stQ = F("Q" + t, I, I, R), F("stQ" + t, I, I, B)
        self.cL, self.cst, self.crhs, self.cs = F("cL" + t, I, I, R), F("cst" + t, I, I, B), F("crhs" + t, I, R), F("cs" + t, I, I)
        self.dL, self.dst, self.drhs, self.ds = F("dL" + t, I, I, R), F("dst" + t, I, I, B), F("drhs" + t, I, R), F("ds" + t, I, I)
        self.dQ, self.dstQ = F("dQ" + t, I, I, I, R), F("dstQ" + t, I, I, I, B)
        i, j, c = z3.Ints("qi qj qc")
        s = self
        self.facts = [
            s.n >= min_vars, s.m >= 0, s.q >= 0, z3.Or(s.sense == 1, s.sense == -1),
            z3.ForAll([i], z3.And(s.vt(i) >= 0, s.vt(i) <= 2), patterns=[s.vt(i)]),
            z3.ForAll([i], s.lb(i) <= s.ub(i), patterns=[s.lb(i)]),
            z3.ForAll([i], z3.Implies(s.vt(i) == 1, z3.And(s.lb(i) == 0, s.ub(i) == 1)), patterns=[s.vt(i)]),
            z3.ForAll([c], z3.And(s.cs(c) >= 0, s.cs(c) <= 2), patterns=[s.cs(c)]),
            z3.ForAll([c], z3.And(s.ds(c) >= 0, s.ds(c) <= 2), patterns=[s.ds(c)]),
            # entries that are not stored are zero
            z3.ForAll([i], z3.Or(s.stL(i), s.L(i) == 0), patterns=[s.L(i)]),
            z3.ForAll([i, j], z3.Or(s.stQ(i, j), s.Q(i, j) == 0), patterns=[s.Q(i, j)]),
            z3.ForAll([c, i], z3.Or(s.cst(c, i), s.cL(c, i) == 0), patterns=[s.cL(c, i)]),
            z3.ForAll([c, i], z3.Or(s.dst(c, i), s.dL(c, i) == 0), patterns=[s.dL(c, i)]),
            z3.ForAll([c, i, j], z3.Or(s.dstQ(c, i, j), s.dQ(c, i, j) == 0), patterns=[s.dQ(c, i, j)]),
        ]
        if integral_bounds:
            self.facts.append(z3.ForAll([i], z3.Implies(s.vt(i) == 2, z3.And(z3.IsInt(s.lb(i)), z3.IsInt(s.ub(i)))), patterns=[s.vt(i)]))
        if not with_l:
            self.facts.append(self.m == 0)
        if not with_q:
            self.facts.append(self.q == 0)
        eng.facts += self.facts
        self.eng = eng
        self.ref = eng.new(ObjV("AProg", self.fields(eng, self.prog)))
        ids = [self.ref.id] + [eng.cells[self.ref.id].fields[k].id for k in ("vars", "lcons", "qcons")]
        self.snap = {i: eng.cells[i] for i in ids}

    def untouched(self, cells):
        """The input program's cells are the ones it had before the call."""
        return all(cells[i] is c for i, c in self.snap.items())

    def bi(self, hi=None):
        v = freshi()
        return Binder(v, iv(0), self.n if hi is None else hi)

    def lin(self, f, st):
        """Rec of a linear expression with index-keyed pieces."""
        b = self.bi()
        return Rec("lin", {"d": DictV([Piece([b], st(b.var), b.var, f(b.var))]), "n": self.n, "prog": z3.IntVal(self.prog)})

    def quad(self, f, st):
        b1, b2 = self.bi(), self.bi()
        g = z3.And(b1.var <= b2.var, st(b1.var, b2.var))
        return Rec("quad", {"d": DictV([Piece([b1, b2], g, (b1.var, b2.var), f(b1.var, b2.var))]), "n": self.n, "prog": z3.IntVal(self.prog)})

    def var(self, i, tok):
        return Rec("var", {"name": V(i, self.prog), "lowerbound": self.lb(i), "upperbound": self.ub(i), "vartype": SymEnum("VarType", self.vt(i))},
                   (tok, i))

    def fields(self, eng, tok):
        b = self.bi()
        vs = eng.new(ListV([Seg([b], TRUE, self.var(b.var, tok))]))
        c, d = self.bi(self.m), self.bi(self.q)
        lc = Rec("con", {"name": Name.LN(c.var), "linear": self.lin(lambda i: self.cL(c.var, i), lambda i: self.cst(c.var, i)),
                         "sense": SymEnum("ConstraintSense", self.cs(c.var)), "rhs": self.crhs(c.var)}, ("l", tok, c.var))
        qc = Rec("con", {"name": Name.QN(d.var), "linear": self.lin(lambda i: self.dL(d.var, i), lambda i: self.dst(d.var, i)),
                         "quadratic": self.quad(lambda i, j: self.dQ(d.var, i, j), lambda i, j: self.dstQ(d.var, i, j)),
                         "sense": SymEnum("ConstraintSense", self.ds(d.var)), "rhs": self.drhs(d.var)}, ("q", tok, d.var))
        obj = Rec("obj", {"constant": self.const, "linear": self.lin(self.L, self.stL), "quadratic": self.quad(self.Q, self.stQ),
                          "sense": SymEnum("ObjSense", self.sense)})
        return {"vars": vs, "lcons": eng.new(ListV([Seg([c], TRUE, lc)])), "qcons": eng.new(ListV([Seg([d], TRUE, qc)])),
                "objective": obj, "name": litname("problem"), "status": EnumV("QuadraticProgramStatus", "VALID", 0), "src": self}

    # ---- specification side
    def lin_val(self, f, st, point):
        b = self.bi()
        return mk_sum([b], st(b.var), f(b.var) * point(b.var))

    def quad_val(self, f, st, point):
        b1, b2 = self.bi(), self.bi()
        return mk_sum([b1, b2], z3.And(b1.var <= b2.var, st(b1.var, b2.var)), f(b1.var, b2.var) * point(b1.var) * point(b2.var))

    def point(self, i):
        return pt(V(i, self.prog))

    def obj_val(self, point=None):
        p = point or self.point
        return self.const + self.lin_val(self.L, self.stL, p) + self.quad_val(self.Q, self.stQ, p)

    def lhs_l(self, c, point=None):
        p = point or self.point
        return self.lin_val(lambda i: self.cL(c, i), lambda i: self.cst(c, i), p)

    def lhs_q(self, c, point=None):
        p = point or self.point
        return self.lin_val(lambda i: self.dL(c, i), lambda i: self.dst(c, i), p) + \
            self.quad_val(lambda i, j: self.dQ(c, i, j), lambda i, j: self.dstQ(c, i, j), p)


# ------------------------------------------------------------------ program objects
def new_prog(eng, a, k):
    name = a[0] if a else k.get("name", "")
    return eng.new(ObjV("AProg", {"vars": eng.new(ListV([])), "lcons": eng.new(ListV([])), "qcons": eng.new(ListV([])), "name": name,
                                  "objective": Rec("obj", {"constant": 0.0, "linear": Rec("lin", {"d": DictV()}), "quadratic": Rec("quad", {"d": DictV()}),
                                                           "sense": EnumV("ObjSense", "MINIMIZE", 1)}),
                                  "status": EnumV("QuadraticProgramStatus", "VALID", 0), "src": None}))


def copy_prog(eng, r, memo):
    c = eng.cell(r)
    tok = eng.fresh_tok()
    f = dict(c.fields)
    for k in ("vars", "lcons", "qcons"):
        l = eng.cell(f[k])

        def re(v):
            return Rec(v.kind, v.attrs, (tok,) + tuple(v.ident[1:]) if v.kind == "var" and v.ident else ((v.ident[0], tok) + tuple(v.ident[2:]) if v.ident else None))
        f[k] = eng.new(ListV([Seg(s.binders, s.guard, re(s.val)) for s in l.segs], l.kind, l.base, l.unordered))
    return eng.new(ObjV(c.cls, f))


def fields(eng, r):
    return eng.cell(r).fields


def setf(eng, r, name, v):
    c = eng.cell(r)
    if r.id in eng.frozen:
        raise Unsupported("modification of a stored program")
    f = dict(c.fields)
    f[name] = v
    eng.put(r, ObjV(c.cls, f))


def add_var(vt):
    def fn(eng, a, k):
        names = ["lowerbound", "upperbound", "name"] if vt != 1 else ["name"]
        defaults = {"lowerbound": 0, "upperbound": 1e20, "name": None}
        vals = dict(defaults)
        vals.update(dict(zip(names, a[1:])))
        vals.update(k)
        if vt == 1:
            vals["lowerbound"], vals["upperbound"] = 0, 1
        nm = vals["name"]
        if nm is None:
            raise Unsupported("automatic variable name")
        nm = as_name(eng, nm)
        lst = fields(eng, a[0])["vars"]
        lo, hi = real(vals["lowerbound"]), real(vals["upperbound"])
        eng.obls.append(("variable bounds are ordered", list(eng.pc), lo <= hi))
        known = any(x[0] == lst.id and x[1].eq(nm) and x[2] is eng.cell(lst) for x in eng.notin)
        v = Rec("var", {"name": nm, "lowerbound": lo, "upperbound": hi, "vartype": SymEnum("VarType", z3.IntVal(vt))},
                (eng.fresh_tok(), nm))
        if known:
            v.attrs["distinct"] = True
        lib.append(eng, lst, v)
        return v
    return fn


def var_by_name(eng, r, nm):
    nm = as_name(eng, nm)
    c = eng.cell(fields(eng, r)["vars"])
    if c.base is not None:
        raise Unsupported("lookup in a program the loop extends")
    for s in c.segs:
        nb, g, v = refresh(s.binders, s.guard, s.val)
        eqs = lib.unify(v.attrs["name"], nm)
        if eqs is None:
            continue
        m, conds, rem = lib.solve(nb, eqs)
        if rem:
            raise Unsupported("lookup by name")
        if eng.branch(z3.simplify(band(subst(g, m), *conds))):
            return vsub(v, m)
    eng.raise_("KeyError")


def get_variable(eng, a, k):
    x = a[1]
    if isinstance(x, Rec) and x.kind == "pos":
        raise Unsupported("lookup by abstract position")
    if namelike(x):
        return var_by_name(eng, a[0], x)
    return lib.list_at(eng, eng.cell(fields(eng, a[0])["vars"]), x)


def get_num_vars(eng, a, k):
    c = eng.cell(fields(eng, a[0])["vars"])
    t = a[1] if len(a) > 1 else k.get("vartype")
    if t is None:
        return lib.length(eng, c)
    return count_type(eng, c, lib.enum_term(t))


def count_type(eng, c, t):
    if c.base is not None:
        raise Unsupported("count in a loop")
    segs = []
    for s in c.segs:
        nb, g, v = refresh(s.binders, s.guard, s.val)
        g2 = z3.simplify(band(g, lib.enum_term(v.attrs["vartype"]) == t))
        if not z3.is_false(g2):
            segs.append(Seg(nb, g2, v))
    n = lib.length(eng, ListV(segs))
    if isz(n):
        # a count is non-negative, and zero exactly if no element qualifies
        e = bor(*[mk_exists(s.binders, s.guard) for s in segs])
        if getattr(eng, "count_split", False):
            # all elements qualify, or fewer than the total
            rest = []
            for s in c.segs:
                nb, g, v = refresh(s.binders, s.guard, s.val)
                rest.append(mk_exists(nb, z3.simplify(band(g, lib.enum_term(v.attrs["vartype"]) != t))))
            total = lib.length(eng, c)
            if not eng.branch(bor(*rest)):
                return total
            k = lib.skolem(eng, "cnt", I)
            eng.aux_fact(z3.And(k >= 0, (k > 0) == e, k < lib.num(total)))
            return k
        k = lib.skolem(eng, "cnt", I)
        eng.aux_fact(z3.And(k >= 0, (k > 0) == e))
        if eng.branch(e):
            eng.aux_fact(k > 0)
        else:
            return 0
        return k
    return n


def num_of(t):
    return lambda eng, a, k: count_type(eng, eng.cell(fields(eng, a[0])["vars"]), z3.IntVal(t))


def index_name(eng, r, idx, hyp):
    """Name of the variable at a position, the position being provably in range."""
    c = eng.cell(fields(eng, r)["vars"])
    if c.base is not None or not c.segs:
        raise Unsupported("index of a variable")
    idx = num(idx)
    off = z3.IntVal(0)
    for s in c.segs:
        n = lib.seg_count(s)
        if n is None or c.unordered and s is not c.segs[0]:
            raise Unsupported("index into a filtered variable list")
        inside = z3.And(off <= idx, idx < off + n)
        if eng.entailed(z3.Implies(hyp, inside)):
            if not s.binders:
                return s.val.attrs["name"]
            b = s.binders[0]
            return vsub(s.val.attrs["name"], [(b.var, z3.simplify(b.lo + idx - off))])
        off = z3.simplify(off + n)
    raise Unsupported("variable index not provably in range")


def name_keyed(eng, r, v, deg):
    """Coefficients as a name-keyed DictV (values add up over equal keys)."""
    if v is None:
        return DictV()
    if isinstance(v, Rec) and v.kind == "coef":
        if v.attrs["deg"] != deg:
            raise Unsupported("coefficients of another degree")
        return v.attrs["d"]
    if isinstance(v, Rec) and v.kind in ("lin", "quad"):
        d = v.attrs["d"]
        if "prog" in v.attrs:
            p = v.attrs["prog"]
            return DictV([Piece(q.binders, q.guard, tuple(Name.V(p, x) for x in q.key) if deg == 2 else Name.V(p, q.key), q.val, q.mode) for q in d.pieces])
        return d
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, DictV):
            if c.base is not None:
                raise Unsupported("coefficients under construction")
            out = []
            for q in c.pieces:
                hyp = band(*([b.range() for b in q.binders] + [q.guard]))

                def nm(x):
                    return as_name(eng, x) if namelike(x) else index_name(eng, r, x, hyp)
                if deg == 1:
                    key = q.key[0] if isinstance(q.key, tuple) and len(q.key) == 1 else q.key
                    if isinstance(key, tuple):
                        raise Unsupported("linear coefficient key %r" % (key,))
                    key = nm(key)
                else:
                    if not (isinstance(q.key, tuple) and len(q.key) == 2):
                        raise Unsupported("quadratic coefficient key %r" % (q.key,))
                    key = tuple(nm(x) for x in q.key)
                val = lib.undg(real(q.val)) if is_num(q.val) else None
                if val is None:
                    raise Unsupported("coefficient %r" % (q.val,))
                out.append(Piece(q.binders, q.guard, key, val, q.mode))
            return DictV(out)
        if isinstance(c, ListV) and deg == 1:
            out, off = [], z3.IntVal(0)
            for s in c.segs:
                n = lib.seg_count(s)
                if n is None:
                    raise Unsupported("coefficient list")
                pos = off if not s.binders else z3.simplify(off + s.binders[0].var - s.binders[0].lo)
                hyp = band(*([b.range() for b in s.binders] + [s.guard]))
                out.append(Piece(s.binders, s.guard, index_name(eng, r, pos, hyp), real(s.val)))
                off = z3.simplify(off + n)
            return DictV(out)
    raise Unsupported("coefficients %r" % (v,))


def set_objective(sense):
    def fn(eng, a, k):
        vals = dict(zip(["constant", "linear", "quadratic"], a[1:]))
        vals.update(k)
        r = a[0]
        o = Rec("obj", {"constant": vals.get("constant", 0.0), "linear": Rec("lin", {"d": name_keyed(eng, r, vals.get("linear"), 1)}),
                        "quadratic": Rec("quad", {"d": name_keyed(eng, r, vals.get("quadratic"), 2)}),
                        "sense": EnumV("ObjSense", "MINIMIZE" if sense == 1 else "MAXIMIZE", sense)})
        setf(eng, r, "objective", o)
    return fn


def sense_term(eng, s):
    if isinstance(s, str):
        if s not in SENSES:
            eng.raise_("QiskitOptimizationError")
        return z3.IntVal(SENSES[s])
    return lib.enum_term(s)


def add_con(quad):
    def fn(eng, a, k):
        names = ["linear", "quadratic", "sense", "rhs", "name"] if quad else ["linear", "sense", "rhs", "name"]
        vals = {"linear": None, "quadratic": None, "sense": "<=", "rhs": 0.0, "name": None}
        vals.update(dict(zip(names, a[1:])))
        vals.update(k)
        if vals["name"] is None:
            raise Unsupported("automatic constraint name")
        r = a[0]
        at = {"name": as_name(eng, vals["name"]), "linear": Rec("lin", {"d": name_keyed(eng, r, vals["linear"], 1)}),
              "sense": SymEnum("ConstraintSense", sense_term(eng, vals["sense"])), "rhs": real(vals["rhs"])}
        if quad:
            at["quadratic"] = Rec("quad", {"d": name_keyed(eng, r, vals["quadratic"], 2)})
        c = Rec("con", at, ("new", eng.fresh_tok()))
        lib.append(eng, fields(eng, r)["qcons" if quad else "lcons"], c)
        return c
    return fn


def lin_to_dict(eng, a, k):
    r = a[0]
    use = k.get("use_name", a[1] if len(a) > 1 else False)
    d = r.attrs["d"]
    if "prog" in r.attrs:
        if use is True:
            return eng.new(DictV([Piece(q.binders, q.guard, Name.V(r.attrs["prog"], q.key), q.val, q.mode) for q in d.pieces]))
        if use is False:
            return eng.new(d)
    elif use is True:
        return eng.new(d)
    raise Unsupported("to_dict")


def quad_to_dict(eng, a, k):
    r = a[0]
    vals = dict(zip(["symmetric", "use_name"], a[1:]))
    vals.update(k)
    sym, use = vals.get("symmetric", False), vals.get("use_name", False)
    d = r.attrs["d"]
    if "prog" not in r.attrs:
        if use is True and sym is False:
            return eng.new(d)
        raise Unsupported("to_dict of a constructed expression")
    p = r.attrs["prog"]

    def key(x):
        return tuple(Name.V(p, y) for y in x) if use is True else x
    if sym is False:
        return eng.new(DictV([Piece(q.binders, q.guard, key(q.key), q.val, q.mode) for q in d.pieces]))
    if sym is True:
        out = []
        for q in d.pieces:
            i, j = q.key
            out.append(Piece(q.binders, z3.simplify(band(q.guard, i == j)), key((i, j)), q.val, q.mode))
            out.append(Piece(q.binders, z3.simplify(band(q.guard, i < j)), key((i, j)), q.val / 2, q.mode))
            nb, g, i2, j2, v = refresh(q.binders, q.guard, i, j, q.val)
            out.append(Piece(nb, z3.simplify(band(g, i2 < j2)), key((j2, i2)), v / 2, q.mode))
        return eng.new(DictV(out))
    raise Unsupported("to_dict")


def lin_to_array(eng, a, k):
    r = a[0]
    if "prog" not in r.attrs:
        raise Unsupported("to_array of a constructed expression")
    d = r.attrs["d"]
    return eng.new(DictV([Piece(q.binders, q.guard, (q.key,), q.val, "set") for q in d.pieces], "arr", shape=(r.attrs["n"],)))


def quad_to_array(eng, a, k):
    r = a[0]
    if "prog" not in r.attrs:
        raise Unsupported("to_array of a constructed expression")
    vals = dict(zip(["symmetric"], a[1:]))
    vals.update(k)
    dd = quad_to_dict(eng, [r], {"symmetric": vals.get("symmetric", False)})
    n = r.attrs["n"]
    return eng.new(DictV(eng.cell(dd).pieces, "arr", shape=(n, n)))


def value_at(d, deg, point=None):
    """Term of a name-keyed coefficient dict at the generic point."""
    p = point or (lambda nm: pt(nm))
    t = z3.RealVal(0)
    for q in d.pieces:
        x = p(q.key) if deg == 1 else p(q.key[0]) * p(q.key[1])
        t = t + mk_sum(q.binders, q.guard, lib.undg(real(q.val)) * x)
    return t


def named(rec, deg):
    """Name-keyed pieces of an expression record."""
    d = rec.attrs["d"]
    if "prog" in rec.attrs:
        p = rec.attrs["prog"]
        return DictV([Piece(q.binders, q.guard, tuple(Name.V(p, x) for x in q.key) if deg == 2 else Name.V(p, q.key), q.val, q.mode) for q in d.pieces])
    return d


def lin_value(rec, point=None):
    return value_at(named(rec, 1), 1, point)


def quad_value(rec, point=None):
    return value_at(named(rec, 2), 2, point)


def obj_value(obj, point=None):
    return real(obj.attrs["constant"]) + lin_value(obj.attrs["linear"], point) + quad_value(obj.attrs["quadratic"], point)


def con_lhs(con, point=None):
    t = lin_value(con.attrs["linear"], point)
    if "quadratic" in con.attrs:
        t = t + quad_value(con.attrs["quadratic"], point)
    return t


def holds(sense, lhs, rhs):
    s = sense if isz(sense) else z3.IntVal(sense)
    return z3.If(s == LE, lhs <= rhs, z3.If(s == GE, lhs >= rhs, lhs == rhs))


# ------------------------------------------------------------------ evaluation at a vector (contract C01)
def vec_entry(v, i):
    """Entry i of a vector argument."""
    if v.kind == "pt":
        return pt(Name.V(0, i)) if "f" not in v.attrs else v.attrs["f"](i)
    return v.attrs["decl"](*(list(v.attrs["args"]) + [i])) if "decl" in v.attrs else v.attrs["f"](i)


def by_index(x):
    def at(nm):
        if not (z3.is_app(nm) and nm.decl().name() == "V"):
            raise Unsupported("evaluation at a variable without index: %s" % nm)
        return real(vec_entry(x, nm.arg(1)))
    return at


def eval_of(value):
    def fn(eng, a, k):
        x = a[1] if len(a) > 1 else k.get("x")
        if isinstance(x, Ref):
            x = as_vec(eng, x)
        if not (isinstance(x, Rec) and x.kind == "vec"):
            raise Unsupported("evaluation at %r" % (x,))
        return value(a[0], by_index(x))
    return fn


def as_vec(eng, ref):
    c = eng.cell(ref)
    if isinstance(c, DictV) and c.kind == "arr" and len(c.shape) == 1:
        return Rec("vec", {"f": lambda i: lib.undg(lib.dsum(c, (i,))), "len": c.shape[0]})
    from . import sparse
    sh, f, _ = sparse.mat(eng, ref)
    if len(sh) != 1:
        raise Unsupported("evaluation at %r" % (c,))
    return Rec("vec", {"f": f, "len": sh[0]})


def gradient(eng, a, k):
    """d/dx_i of the objective: an array (contract C01)."""
    o, x = a[0], a[1] if len(a) > 1 else k.get("x")
    if not (isinstance(x, Rec) and x.kind == "vec"):
        raise Unsupported("gradient at %r" % (x,))
    n = o.attrs["linear"].attrs.get("n")
    if n is None:
        raise Unsupported("gradient of a constructed objective")
    b = Binder(freshi(), iv(0), n)
    t = z3.RealVal(0)
    for q in o.attrs["linear"].attrs["d"].pieces:
        t = t + mk_sum(q.binders, z3.And(q.guard, q.key == b.var), real(q.val))
    for q in o.attrs["quadratic"].attrs["d"].pieces:
        for y, z in ((q.key[0], q.key[1]), (q.key[1], q.key[0])):
            t = t + mk_sum(q.binders, z3.And(q.guard, y == b.var), real(q.val) * real(vec_entry(x, z)))
    return eng.new(DictV([Piece([b], TRUE, (b.var,), t, "set")], "arr", shape=(n,)))


def feasible(eng, a, k):
    """is_feasible(x) (contract C04): some fixed property of the point."""
    x = a[1] if len(a) > 1 else k.get("x")
    if not (isinstance(x, Rec) and x.kind == "vec"):
        raise Unsupported("feasibility of %r" % (x,))
    return feasible_term(eng, a[0], x)


def feasible_term(eng, r, x):
    src = fields(eng, r).get("src")
    if src is None:
        raise Unsupported("feasibility in a constructed program")
    if "decl" in x.attrs:
        f = z3.Function("feasible_%s_%s" % (src.tag, x.attrs["decl"].name()), *([t.sort() for t in x.attrs["args"]] + [B]))
        return f(*x.attrs["args"]) if x.attrs["args"] else z3.Bool("feasible_%s_%s" % (src.tag, x.attrs["decl"].name()))
    if "id" in x.attrs:
        return z3.Bool("feasible_%s_%s" % (src.tag, x.attrs["id"]))
    raise Unsupported("feasibility of a computed point")


def vindex(eng, o):
    return Rec("vindex", {"prog": o})


def vindex_contains(eng, a, k):
    r = a[0].attrs["prog"]
    nm = as_name(eng, a[1])
    lst = fields(eng, r)["vars"]
    c = eng.cell(lst)
    if c.base is None:
        return lib.contains(eng, eng.new(ListV([Seg(s.binders, s.guard, s.val.attrs["name"]) for s in c.segs])), nm)
    # inside a loop that adds variables: an opaque answer per (list version, name)
    key = "invars_%d_%d" % (lst.id, len(eng.notin))
    t = lib.skolem(eng, "in", B)
    eng.invars.append((t, lst.id, nm, c))
    return t


def install(eng):
    eng.overrides[QP] = NType("QuadraticProgram", new_prog)
    eng.overrides["qiskit_optimization.problems.QuadraticProgram"] = eng.overrides[QP]
    tok = [100]

    def fresh_tok():
        tok[0] += 1
        return tok[0]
    eng.fresh_tok = fresh_tok
    eng.invars = []

    class NotIn:
        """(list, name, content) triples for which the path condition says the name is not in the list."""
        def __iter__(self):
            out = []
            for t, lid, nm, c in eng.invars:
                if any(z3.is_not(p) and p.arg(0).eq(t) for p in eng.pc):
                    out.append((lid, nm, c))
            return iter(out)

        def __len__(self):
            return len(eng.invars)
    eng.notin = NotIn()
    P = "AProg"
    eng.real_classes[P] = QP
    H = eng.obj_handlers
    H[P, "variables"] = (lambda e, o: fields(e, o)["vars"],)
    H[P, "linear_constraints"] = (lambda e, o: fields(e, o)["lcons"],)
    H[P, "quadratic_constraints"] = (lambda e, o: fields(e, o)["qcons"],)
    H[P, "variables_index"] = (vindex,)
    H[P, "continuous_var"], H[P, "binary_var"], H[P, "integer_var"] = add_var(0), add_var(1), add_var(2)
    H[P, "get_variable"] = get_variable
    H[P, "get_num_vars"] = get_num_vars
    H[P, "get_num_continuous_vars"], H[P, "get_num_binary_vars"], H[P, "get_num_integer_vars"] = num_of(0), num_of(1), num_of(2)
    H[P, "get_num_linear_constraints"] = lambda e, a, k: lib.length(e, e.cell(fields(e, a[0])["lcons"]))
    H[P, "get_num_quadratic_constraints"] = lambda e, a, k: lib.length(e, e.cell(fields(e, a[0])["qcons"]))
    H[P, "minimize"], H[P, "maximize"] = set_objective(1), set_objective(-1)
    H[P, "linear_constraint"], H[P, "quadratic_constraint"] = add_con(False), add_con(True)
    eng.copiers[P] = copy_prog
    RH = eng.rec_handlers
    RH["lin", "to_dict"], RH["quad", "to_dict"] = lin_to_dict, quad_to_dict
    RH["lin", "to_array"], RH["quad", "to_array"] = lin_to_array, quad_to_array
    RH["vindex", "__contains__"] = vindex_contains
    RH["lin", "evaluate"], RH["quad", "evaluate"] = eval_of(lin_value), eval_of(quad_value)
    RH["obj", "evaluate"], RH["con", "evaluate"] = eval_of(obj_value), eval_of(con_lhs)
    RH["obj", "evaluate_gradient"] = gradient
    RH["pt", "__getitem__"] = point_getitem
    RH["pt", "__len__"] = lambda e, a, k: a[0].attrs["len"]

    def isinst(v, t):
        n = lib.type_name(t)
        return {"lin": "LinearExpression", "quad": "QuadraticExpression", "var": "Variable", "obj": "QuadraticObjective", "pt": "ndarray"}.get(v.kind) == n
    eng.rec_isinstance = isinst


def point_getitem(eng, a, k):
    """x[i]: the value of the variable at position i (of the program the point belongs to)."""
    p, i = a
    if isinstance(i, Rec) and i.kind == "pos":
        return pt(i.attrs["of"])
    i = num(i)
    if i.sort() != I:
        raise Unsupported("point index")
    if "prog" not in p.attrs:
        return p.attrs["f"](i)
    return pt(index_name(eng, p.attrs["prog"], i, z3.BoolVal(True)))


def distinct_names(eng, r):
    """Obligations: names of the program's variables are pairwise different (list of (hypotheses, goal))."""
    c = eng.cell(fields(eng, r)["vars"])
    out = []
    for x, s in enumerate(c.segs):
        for y in range(x, len(c.segs)):
            t = c.segs[y]
            if t.val.attrs.get("distinct") or s.val.attrs.get("distinct"):
                continue
            b1, g1, v1 = refresh(s.binders, s.guard, s.val)
            b2, g2, v2 = refresh(t.binders, t.guard, t.val)
            hyp = [b.range() for b in b1 + b2] + [g1, g2]
            ne = v1.attrs["name"] != v2.attrs["name"]
            if x == y:
                ne = z3.Or(ne, band(*[p.var == q.var for p, q in zip(b1, b2)]))
            out.append((hyp, ne))
    return out
