"""C11: docplex import and export (the real from_docplex / to_docplex on symbolic models and programs)."""
from .common import *
from . import apps, c05

QPC = PRE + "problems.quadratic_program.QuadraticProgram"
CODES = {"EQ": 0, "LE": 1, "GE": 2}


def dname(i):
    return V(i, 77)


class Model:
    """A symbolic docplex model."""

    def __init__(self, eng, shape):
        self.eng = eng
        H = eng.rec_handlers
        nv, m, mq = self.nv, self.m, self.mq = z3.Ints("n_docplex m_docplex mq_docplex")
        self.kind = z3.Function("docplex_type", I, I)       # 0 continuous, 1 binary, 2 integer, others unsupported
        self.lb, self.ub = z3.Function("docplex_lb", I, R), z3.Function("docplex_ub", I, R)
        self.shape = shape
        i, j, c, s = z3.Ints("i j c s")
        eng.facts += [nv >= 0, m >= 0, mq >= 0, z3.ForAll([i], self.lb(i) <= self.ub(i), patterns=[self.lb(i)]), z3.ForAll([i], self.lb(i) <= self.ub(i), patterns=[self.ub(i)])]
        self.minimize = z3.Bool("docplex_minimize")
        f = lambda nm, *so: z3.Function(nm, *so)
        # objective
        self.obj = self.expr(f("obj_has", I, B), f("obj_coef", I, R), z3.Real("obj_const"), (f("obj_hasq", I, I, B), f("obj_q", I, I, R)) if shape == "quad" else None, shape == "var")
        # constraints: side s (0 left, 1 right) of constraint c
        self.has, self.coef, self.const = f("side_has", I, I, I, B), f("side_coef", I, I, I, R), f("side_const", I, I, R)
        self.isvar = f("side_is_variable", I, I, B)
        self.csense, self.cname = f("docplex_sense", I, I), (lambda c: V(c, 78))
        self.ckind = f("docplex_constraint_kind", I, I)     # 0 linear, 1 quadratic, others unsupported
        self.qhas, self.qcoef, self.qconst = f("qside_has", I, I, I, B), f("qside_coef", I, I, I, R), f("qside_const", I, I, R)
        self.qq, self.qqc = f("qside_hasq", I, I, I, I, B), f("qside_q", I, I, I, I, R)
        self.isq = f("qside_is_quadratic", I, I, B)
        self.qsense, self.qname = f("docplex_qsense", I, I), (lambda c: V(c, 79))
        eng.facts += [z3.ForAll([c], z3.And(self.csense(c) >= 0, self.csense(c) <= 2), patterns=[self.csense(c)]), z3.ForAll([c], z3.And(self.qsense(c) >= 0, self.qsense(c) <= 2), patterns=[self.qsense(c)]),
                      z3.ForAll([c, s], z3.Implies(self.isvar(c, s), self.const(c, s) == 0), patterns=[self.const(c, s)]),
                      z3.ForAll([c, s, i, j], z3.Implies(z3.Not(self.isq(c, s)), z3.Not(self.qq(c, s, i, j))), patterns=[self.qq(c, s, i, j)]),
                      z3.ForAll([c, s, i, j], z3.Implies(z3.And(self.qq(c, s, i, j), i != j), z3.Not(self.qq(c, s, j, i))), patterns=[self.qq(c, s, i, j)])]
        # handlers
        H["dexpr", "iter_variables"] = lambda e, a, k: self.vars_of(a[0])
        H["dexpr", "get_coef"] = self.get_coef
        H["dexpr", "get_linear_part"] = lambda e, a, k: self.linear_part(a[0])
        H["dexpr", "iter_quad_triplets"] = lambda e, a, k: self.triplets(a[0])
        H["dexpr", "is_quad_expr"] = lambda e, a, k: a[0].attrs["isquad"]
        H["dexpr", "__add__"] = self.add
        H["dcon", "get_left_expr"] = lambda e, a, k: a[0].attrs["left"]
        H["dcon", "get_right_expr"] = lambda e, a, k: a[0].attrs["right"]
        H["dobjsense", "is_minimize"] = lambda e, a, k: self.minimize
        oh = eng.obj_handlers
        oh["DModel", "iter_variables"] = lambda e, a, k: self.all_vars()
        oh["DModel", "iter_constraints"] = lambda e, a, k: self.lin_cons()
        oh["DModel", "iter_quadratic_constraints"] = lambda e, a, k: self.quad_cons()
        self.ref = eng.new(ObjV("DModel", {"name": z3.Const("docplex_name", Name), "objective_sense": Rec("dobjsense", {}), "objective_expr": self.obj}))
        old = eng.rec_isinstance
        eng.rec_isinstance = lambda v, t: self.isinstance(v, t) if v.kind in ("dexpr", "dvar", "dvt", "dcon") else old(v, t)

    def expr(self, has, coef, const, quad, isvar, isquad=None):
        at = {"has": has, "coef": coef, "constant": const, "qhas": quad and quad[0], "qcoef": quad and quad[1], "isvar": isvar, "isquad": quad is not None if isquad is None else isquad}
        if quad is not None:
            at["linear_part"] = Rec("dexpr", dict(at, qhas=None, qcoef=None, isquad=False))
        return Rec("dexpr", at)

    def var(self, i):
        return Rec("dvar", {"name": dname(i), "lb": self.lb(i), "ub": self.ub(i), "vartype": Rec("dvt", {"code": self.kind(i)})}, ("dvar", i))

    def all_vars(self):
        b = Binder(freshi(), iv(0), self.nv)
        return SeqV([Seg([b], TRUE, self.var(b.var))])

    def vars_of(self, e):
        b = Binder(freshi(), iv(0), self.nv)
        return SeqV([Seg([b], e.attrs["has"](b.var), self.var(b.var))])

    def triplets(self, e):
        if e.attrs["qhas"] is None:
            raise Unsupported("triplets of a linear expression")
        b, d = Binder(freshi(), iv(0), self.nv), Binder(freshi(), iv(0), self.nv)
        h, q = e.attrs["qhas"], e.attrs["qcoef"]
        return SeqV([Seg([b, d], h(b.var, d.var), (self.var(b.var), self.var(d.var), q(b.var, d.var)))])

    def linear_part(self, e):
        return self.expr(e.attrs["has"], e.attrs["coef"], e.attrs["constant"], None, False)

    def get_coef(self, eng, a, k):
        x = a[1]
        if not isinstance(x, Rec) or x.kind != "dvar":
            raise Unsupported("get_coef")
        return a[0].attrs["coef"](x.ident[1])

    def add(self, eng, a, k):
        if lib.conc(a[1]) != 0:
            raise Unsupported("sum of expressions")
        return Rec("dexpr", dict(a[0].attrs, isvar=False))

    def isinstance(self, v, t):
        n = lib.type_name(t)
        if v.kind == "dexpr":
            if n == "Var":
                x = v.attrs["isvar"]
                return x if isinstance(x, bool) else self.eng.branch(x)
            if n == "QuadExpr":
                x = v.attrs["isquad"]
                return x if isinstance(x, bool) else self.eng.branch(x)
        if v.kind == "dvt" and n in ("ContinuousVarType", "BinaryVarType", "IntegerVarType"):
            return self.eng.branch(v.attrs["code"] == {"C": 0, "B": 1, "I": 2}[n[0]])
        if v.kind == "dcon" and n in ("LinearConstraint", "QuadraticConstraint", "NotEqualConstraint"):
            return self.eng.branch(z3.Or(*[v.attrs["kind"] == x for x in {"L": (0, 2), "Q": (1,), "N": (2,)}[n[0]]]))
        raise Unsupported("isinstance(%s, %s)" % (v.kind, n))

    def cmp(self, code):
        return Rec("cmp", dict({nm: Rec("cmp", {}, ("cmp", iv(k))) for nm, k in CODES.items()}), ("cmp", code))

    def lin_cons(self):
        b = Binder(freshi(), iv(0), self.m)
        c = b.var
        side = lambda s: self.expr(lambda i: self.has(c, iv(s), i), lambda i: self.coef(c, iv(s), i), self.const(c, iv(s)), None, self.isvar(c, iv(s)))
        return SeqV([Seg([b], TRUE, Rec("dcon", {"kind": self.ckind(c), "name": self.cname(c), "sense": self.cmp(self.csense(c)), "left": side(0), "right": side(1)}))])

    def quad_cons(self):
        b = Binder(freshi(), iv(0), self.mq)
        c = b.var
        side = lambda s: self.expr(lambda i: self.qhas(c, iv(s), i), lambda i: self.qcoef(c, iv(s), i), self.qconst(c, iv(s)),
                                   (lambda i, j: self.qq(c, iv(s), i, j), lambda i, j: self.qqc(c, iv(s), i, j)), False, self.isq(c, iv(s)))
        return SeqV([Seg([b], TRUE, Rec("dcon", {"kind": iv(1), "name": self.qname(c), "sense": self.cmp(self.qsense(c)), "left": side(0), "right": side(1)}))])


def lin_sum(M, has, coef):
    b = Binder(freshi(), iv(0), M.nv)
    return mk_sum([b], has(b.var), coef(b.var) * pt(dname(b.var)))


def quad_sum(M, has, coef):
    b, d = Binder(freshi(), iv(0), M.nv), Binder(freshi(), iv(0), M.nv)
    return mk_sum([b, d], has(b.var, d.var), coef(b.var, d.var) * pt(dname(b.var)) * pt(dname(d.var)))


def importing(ctx, shape, cons):
    eng = setup()
    M = Model(eng, shape)
    if cons != "lin":
        eng.facts.append(M.m == 0)
    if cons != "quad":
        eng.facts.append(M.mq == 0)
    oh = eng.obj_handlers

    def clear(e, a, k):
        c = e.cell(a[0])
        f = e.cell(new_prog(e, [], {})).fields
        e.put(a[0], ObjV(c.cls, dict(c.fields, **{x: f[x] for x in ("vars", "lcons", "qcons", "objective", "status", "name")})))
    oh["AProg", "clear"] = clear
    eng.obj_setters["AProg", "name"] = lambda e, o, v: aprog.setf(e, o, "name", v)
    old = Src(eng, tag="old")
    f = eng.getattr(eng.raw_class(QPC), "from_docplex")
    tag = "from_docplex (%s%s)" % (shape, ", %s constraints" % cons if cons else "")
    done = 0
    rng = lambda q, n: z3.And(q >= 0, q < n)
    q = z3.Int("q")
    for u, p in enumerate(eng.explore(lambda: eng.call(f, [old.ref, M.ref]))):
        nm = "%s path %d: " % (tag, u)
        facts = eng.facts + p.pc
        bad_var = z3.Exists([q], z3.And(rng(q, M.nv), z3.Or(M.kind(q) < 0, M.kind(q) > 2)))
        bad_con = z3.Exists([q], z3.And(rng(q, M.m), z3.Or(M.ckind(q) < 0, M.ckind(q) > 1)))
        if p.out == "raise":
            ctx.valid(nm + "raises only for unsupported variables or constraints", facts, z3.Or(bad_var, bad_con))
            continue
        done += 1
        i = z3.Int("any_i")
        ctx.valid(nm + "unsupported variable types are rejected", facts + [rng(i, M.nv)], z3.And(M.kind(i) >= 0, M.kind(i) <= 2))
        ctx.valid(nm + "unsupported constraints are rejected", facts + [rng(i, M.m)], z3.And(M.ckind(i) >= 0, M.ckind(i) <= 1))
        F = p.cells[old.ref.id].fields
        ctx.fact(nm + "named after the model", isz(F["name"]) and F["name"].eq(z3.Const("docplex_name", Name)))
        # variables
        cover(ctx, nm + "variables", facts, p.cells[F["vars"].id], M.nv, lambda c: TRUE)
        for k, s in enumerate(p.cells[F["vars"].id].segs):
            c, at = s.binders[0].var, s.val.attrs
            bin_ = M.kind(c) == 1
            ctx.valid(nm + "variables %d: name, type and bounds" % k, facts + [s.binders[0].range(), s.guard],
                      z3.And(at["name"] == dname(c), lib.enum_term(at["vartype"]) == M.kind(c), real(at["lowerbound"]) == z3.If(bin_, 0, M.lb(c)), real(at["upperbound"]) == z3.If(bin_, 1, M.ub(c))))
        # objective
        o = F["objective"]
        ctx.valid(nm + "sense", facts, lib.enum_term(o.attrs["sense"]) == z3.If(M.minimize, 1, -1))
        e = M.obj.attrs
        spec = e["constant"] + lin_sum(M, e["has"], e["coef"])
        if e["qhas"] is not None:
            spec = spec + quad_sum(M, e["qhas"], e["qcoef"])
        ctx.eq(nm + "objective value", facts, aprog.obj_value(o), spec)
        # constraints
        for field, what, n, want, quad in (("lcons", "linear constraints", M.m, lambda c: M.ckind(c) == 0, False), ("qcons", "quadratic constraints", M.mq, lambda c: TRUE, True)):
            lst = p.cells[F[field].id]
            cover(ctx, nm + what, facts, lst, n, want)
            for k, s in enumerate(lst.segs):
                c, at = s.binders[0].var, s.val.attrs
                hyp = facts + [s.binders[0].range(), s.guard]
                sense = (M.qsense if quad else M.csense)(c)
                ctx.valid(nm + "%s %d: name and sense" % (what, k), hyp, z3.And(at["name"] == (M.qname if quad else M.cname)(c), lib.enum_term(at["sense"]) == z3.If(sense == 0, EQ, z3.If(sense == 1, LE, GE))))
                spec = z3.RealVal(0)
                for sd, sg in ((0, 1), (1, -1)):
                    sd = iv(sd)
                    if quad:
                        v = M.qconst(c, sd) + lin_sum(M, lambda x: M.qhas(c, sd, x), lambda x: M.qcoef(c, sd, x)) + quad_sum(M, lambda x, y: z3.And(M.isq(c, sd), M.qq(c, sd, x, y)), lambda x, y: M.qqc(c, sd, x, y))
                    else:
                        v = M.const(c, sd) + lin_sum(M, lambda x: M.has(c, sd, x), lambda x: M.coef(c, sd, x))
                    spec = spec + sg * v
                ctx.eq(nm + "%s %d: left minus right" % (what, k), hyp, aprog.con_lhs(s.val) - real(at["rhs"]), spec)
    ctx.fact(tag + ": some path returns", done > 0)
    ctx.side(eng, prefix=tag + ": ")
    return eng


def cover(ctx, nm, facts, lst, n, want):
    """The list has exactly one element per wanted index, in order (pieces over the same range with exclusive guards)."""
    c = z3.Int("any_c")
    gs = []
    for s in lst.segs:
        if len(s.binders) != 1:
            raise Unsupported("list of another form")
        b = s.binders[0]
        ctx.valid(nm + ": all of them", facts, z3.And(b.lo == 0, b.hi == n))
        gs.append(subst(s.guard, [(b.var, c)]))
    hyp = facts + [c >= 0, c < n]
    ctx.valid(nm + ": each supported one is there", hyp + [want(c)], z3.Or(*gs) if gs else z3.BoolVal(False))
    for i, g in enumerate(gs):
        ctx.valid(nm + ": once, and no other (%d)" % i, hyp + [g], z3.And(want(c), *[z3.Not(h) for h in gs[:i]]))


# ------------------------------------------------------------------ export
def dvar(kind):
    def fn(eng, a, k):
        names = ["name"] if kind == 1 else ["lb", "ub", "name"]
        vals = dict(zip(names, a[1:]))
        vals.update(k)
        if vals.get("name") is None or set(vals) - set(names) or any(vals.get(x) is None for x in names):
            raise Unsupported("docplex variable")
        nm = lib.as_name(eng, vals["name"])
        lb, ub = (real(vals[x]) for x in ("lb", "ub")) if kind != 1 else (z3.RealVal(0), z3.RealVal(1))
        lib.append(eng, aprog.fields(eng, a[0])["vars"], Rec("dvar", {"name": nm, "type": iv(kind), "lb": lb, "ub": ub}))
        return DExpr(pt(nm))
    return fn


def dcon(eng, a, k):
    vals = dict(zip(["ct", "ctname"], a[1:]))
    vals.update(k)
    c = vals.get("ct")
    if isinstance(c, DCons) and c.maybe:
        raise Unsupported("comparison of two numbers when there is no term")
    if not isinstance(c, DCons) or vals.get("ctname") is None or set(vals) - {"ct", "ctname"}:
        raise Unsupported("docplex constraint")
    lib.append(eng, aprog.fields(eng, a[0])["cons"], Rec("dnamed", {"name": lib.as_name(eng, vals["ctname"]), "con": c}))
    return c


def exporting(ctx, with_l, with_q):
    eng = setup()
    apps.install(eng, lambda nm: pt(nm))
    src = Src(eng, integral_bounds=False, with_l=with_l, with_q=with_q)
    eng.nnz, eng.nnz_ex, eng.grow = {}, [], {}
    RH, oh = eng.rec_handlers, eng.obj_handlers
    RH["lin", "coefficients"], RH["quad", "coefficients"] = ((lambda e, o, d=d: Rec("coef", {"d": aprog.named(o, d), "deg": d}),) for d in (1, 2))
    RH["coef", "nnz"] = (c05.coef_nnz,)
    for kind, nm in enumerate(("continuous_var", "binary_var", "integer_var")):
        oh["DModel", nm] = dvar(kind)
    oh["DModel", "add_constraint"] = oh["DModel", "add"] = dcon

    def empty(e, a, k):
        if len(a) > 1 and a[1] not in (0, None) or len(a) > 2 or set(k) - {"constant"} or k.get("constant", 0) != 0:
            raise Unsupported("docplex expression")
        return DExpr(z3.RealVal(0))
    oh["DModel", "linear_expr"] = oh["DModel", "quad_expr"] = empty

    def model(e, a, k):
        vals = dict(zip(["name"], a))
        vals.update(k)
        if set(vals) - {"name"}:
            raise Unsupported("docplex Model arguments")
        r = apps.new_model(e, [], {})
        aprog.setf(e, r, "name", vals.get("name"))
        return r
    eng.natives["docplex.mp.model.Model"] = NType("docplex.mp.model.Model", model)
    f = eng.getattr(eng.raw_class(QPC), "to_docplex")
    tag = "to_docplex (%s)" % ("linear constraints" if with_l else "quadratic constraints" if with_q else "objective")
    done = 0
    for u, p in enumerate(eng.explore(lambda: eng.call(f, [src.ref]))):
        nm, facts = "%s path %d: " % (tag, u), eng.facts + p.pc
        if p.out == "raise":
            ctx.unreachable(nm + "no error", facts) if hasattr(ctx, "unreachable") else ctx.valid(nm + "no error", facts, z3.BoolVal(False))
            continue
        done += 1
        F = p.cells[p.val.id].fields
        ctx.fact(nm + "the program is left as it was", src.untouched(p.cells))
        name = eng.cells[src.ref.id].fields["name"]
        ctx.fact(nm + "named after the program", isz(F["name"]) and isz(name) and F["name"].eq(name) or F["name"] is name)
        lst = p.cells[F["vars"].id]
        cover(ctx, nm + "variables", facts, lst, src.n, lambda c: TRUE)
        for k, s in enumerate(lst.segs):
            c, at = s.binders[0].var, s.val.attrs
            ctx.valid(nm + "variables %d: name, type and bounds" % k, facts + [s.binders[0].range(), s.guard],
                      z3.And(at["name"] == V(c, src.prog), at["type"] == src.vt(c), at["lb"] == src.lb(c), at["ub"] == src.ub(c)))
        ctx.valid(nm + "sense", facts, iv(F["sense"]) == src.sense)
        ctx.eq(nm + "objective value", facts, F["objective"].term, aprog.obj_value(src_field(eng, src, "objective")))
        # constraints: the linear ones, then the quadratic ones
        lst = p.cells[F["cons"].id]
        for what, field, n in (("linear constraints", "lcons", src.m), ("quadratic constraints", "qcons", src.q)):
            if (field == "lcons" and not with_l) or (field == "qcons" and not with_q):
                continue
            orig = eng.cells[eng.cells[src.ref.id].fields[field].id]
            constraints(ctx, nm + what, facts, lst, n, orig)
        if not with_l and not with_q:
            ctx.valid(nm + "no constraints", facts, z3.Not(bor(*[mk_exists(s.binders, s.guard) for s in lst.segs])))
    ctx.fact(tag + ": some path returns", done > 0)
    ctx.side(eng, prefix=tag + ": ")
    return eng


def src_field(eng, src, nm):
    return eng.cells[src.ref.id].fields[nm]


def constraints(ctx, nm, facts, lst, n, orig):
    """Every constraint is exported once, in order, with its name, sense and values; one left out holds at every point."""
    (o,) = orig.segs
    c = z3.Int("any_c")
    want = vsub(o.val, [(o.binders[0].var, c)]).attrs
    lhs, rhs, sense = subst(aprog.con_lhs(o.val), [(o.binders[0].var, c)]), real(want["rhs"]), lib.enum_term(want["sense"])
    hyp = facts + [c >= 0, c < n]
    gs = []
    for k, s in enumerate(lst.segs):
        if len(s.binders) != 1:
            raise Unsupported("constraints of another form")
        b = s.binders[0]
        ctx.valid(nm + " %d: one per constraint" % k, facts, z3.And(b.lo == 0, b.hi == n))
        m = [(b.var, c)]
        g, at = subst(s.guard, m), vsub(s.val, m).attrs
        gs.append(g)
        code = {"==": 2, "<=": 0, ">=": 1}
        ctx.valid(nm + " %d: name and sense" % k, hyp + [g], z3.And(at["name"] == want["name"], sense == sense_code(at["con"].sense)))
        ctx.eq(nm + " %d: left minus right" % k, hyp + [g], at["con"].lhs - at["con"].rhs, lhs - rhs)
    for i, g in enumerate(gs):
        ctx.valid(nm + ": once (%d)" % i, hyp + [g], z3.And(*[z3.Not(h) for h in gs[:i]]))
    left_out = hyp + [z3.Not(z3.Or(*gs)) if gs else TRUE]
    ctx.valid(nm + ": one left out has left side zero", left_out, lhs == 0)
    ctx.valid(nm + ": one left out holds everywhere", left_out, aprog.holds(sense, z3.RealVal(0), rhs))


def sense_code(s):
    if isz(s):
        return s
    return {"<=": aprog.LE, ">=": aprog.GE, "==": aprog.EQ}[s]


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("docplex: iteration over variables and constraints is in order of creation; an expression lists each variable and each unordered pair once, with its coefficient; "
               "a comparison of two expressions is a constraint on the difference of their values; variables are equal as keys only if they are the same variable",
               "docplex models have finite bounds lb <= ub and distinct names (unnamed variables and constraints: runtime part)",
               "numbers are exact reals; the objective may be a number (docplex accepts it)")
    ctx.beyond("from_docplex with unnamed variables or constraints", "automatic names are string formatting of list positions; covered by the runtime contract")
    for s in ("lin", "quad"):
        ctx.contract("QuadraticProgram.from_docplex (%s constraints)" % s, lambda c, s=s: importing(c, "lin", s), par=True)
    for s in ("lin", "quad", "var"):
        ctx.contract("QuadraticProgram.from_docplex (%s)" % s, lambda c, s=s: importing(c, s, None), par=True)
    ctx.contract("QuadraticProgram.to_docplex (objective)", lambda c: exporting(c, False, False), par=True)
    ctx.contract("QuadraticProgram.to_docplex (linear constraints)", lambda c: exporting(c, True, False), par=True)
    ctx.contract("QuadraticProgram.to_docplex (quadratic constraints)", lambda c: exporting(c, False, True), par=True)
