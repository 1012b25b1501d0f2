"""C14: continuous optimizers (COBYLA, SLSQP, multi start)."""
import time

from .common import *

ALG = PRE + "algorithms."
INF = 1e20


def xvec(name, args, n):
    f = z3.Function(name, *([I] * (len(args) + 1) + [R]))
    return Rec("vec", {"decl": f, "args": tuple(args), "len": n})


class Case:
    """One optimizer run on a symbolic program; the numerical back end returns any vector of the right length."""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.eng = eng = setup()
        eng.count_split = True
        self.src = Src(eng, integral_bounds=False)
        eng.obj_handlers["AProg", "is_feasible"] = lambda e, a, k: aprog.feasible(e, a, k) if (list(a[1:]) + list(k.values()))[0] is not None else e.raise_("TypeError", "no point")
        self.calls = 0
        N = lambda f: NativeV("", f)
        eng.natives["time.time"] = N(lambda e, a, k: z3.Real("clock"))
        eng.natives["scipy.stats.uniform.rvs"] = N(self.rvs)
        eng.natives["scipy.optimize.fmin_cobyla"] = N(self.cobyla)
        eng.natives["scipy.optimize.fmin_slsqp"] = N(self.slsqp)

    def rvs(self, e, a, k):
        return lib.skolem(e, "rand", R)

    def outcome(self, tag="sol"):
        """What the back end returns: an arbitrary vector per trial."""
        self.calls += 1
        return xvec(tag, [b for b in self.eng.binders if b.sort() == I][:1], self.src.n)

    def holds(self, name, hyp, goal):
        self.eng.obls.append((name, list(self.eng.pc) + hyp, goal))

    # ---- the problem handed to the back end, at an arbitrary point y
    def point(self):
        return Rec("vec", {"decl": z3.Function("y", I, R), "args": (), "len": self.src.n})

    def y(self, i):
        return z3.Function("y", I, R)(i)

    def objective(self, f):
        e, s = self.eng, self.src
        v = e.call(f, [self.point()])
        self.eqs("objective handed over", v, z3.ToReal(s.sense) * s.obj_val(self.y))

    def eqs(self, name, a, b):
        P = norm.Prover(self.eng.facts + self.eng.pc, 4000)
        ok, why = P.eq(lib.undg(real(a)), b)
        self.ctx.record("%s: %s" % (self.name, name), bool(ok), why, "sum normal forms + z3", time.time())

    def gradient(self, f):
        e, s = self.eng, self.src
        v = e.call(f, [self.point()])
        c = e.cell(v) if isinstance(v, Ref) else None
        if not (isinstance(c, DictV) and c.kind == "arr" and len(c.shape) == 1):
            raise Unsupported("gradient %r" % (v,))
        i = z3.Int("gi")
        self.holds("gradient has one entry per variable", [], lib.num(c.shape[0]) == s.n)
        e.pc.append(z3.And(i >= 0, i < s.n))
        b = s.bi()
        o = lambda g, x: mk_sum([b], g, x)
        st = lambda x, y: z3.And(x <= y, s.stQ(x, y))
        d = z3.If(s.stL(i), s.L(i), z3.RealVal(0)) + o(st(i, b.var), s.Q(i, b.var) * self.y(b.var)) + o(st(b.var, i), s.Q(b.var, i) * self.y(b.var))
        self.eqs("gradient of the objective handed over", lib.dsum(c, (i,)), z3.ToReal(s.sense) * d)
        e.pc.pop()

    def functions(self, ref):
        """[(binders, guard, value at y)] of a list of constraint functions."""
        e = self.eng
        if isinstance(ref, tuple) and not ref:
            return []
        c = e.cell(ref) if isinstance(ref, Ref) else None
        if not isinstance(c, ListV) or c.base is not None:
            raise Unsupported("list of constraint functions %r" % (ref,))
        out = []
        for s in c.segs:
            save = list(e.pc)
            e.pc = e.pc + [b.range() for b in s.binders] + [s.guard]
            v = lib.undg(real(e.call(lib.materialise(e, s.val), [self.point()])))
            e.pc = save
            out.append((s.binders, s.guard, v))
        return out

    def spec(self):
        """Families of specified conditions: (label, range, condition of index)."""
        s = self.src
        return [("bounds", s.n, lambda i: z3.And(z3.Or(s.lb(i) <= -INF, self.y(i) >= s.lb(i)), z3.Or(s.ub(i) >= INF, self.y(i) <= s.ub(i)))),
                ("linear constraints", s.m, lambda c: holds(s.cs(c), z3.Real("lhs_l"), s.crhs(c))),
                ("quadratic constraints", s.q, lambda c: holds(s.ds(c), z3.Real("lhs_q"), s.drhs(c)))]

    def compare(self, groups, spec):
        """The listed conditions hold exactly if the specified ones do; groups: [(functions, relation to 0)]."""
        e, s = self.eng, self.src
        fams = {}
        for fns, rel in groups:
            for binders, guard, term in fns:
                if len(binders) != 1:
                    raise Unsupported("constraint functions indexed by %s" % (binders,))
                b = binders[0]
                for label, hi, _ in spec:
                    if z3.simplify(b.lo).eq(iv(0)) and z3.simplify(b.hi).eq(z3.simplify(hi)):
                        fams.setdefault(label, []).append((b.var, guard, term, rel))
                        break
                else:
                    raise Unsupported("constraint functions over %s" % b)
        for label, hi, want in spec:
            k = z3.Int("ck")
            got = []
            for v, g, t, rel in fams.get(label, ()):
                sub = lambda x: z3.substitute(x, (v, k))
                t = sub(t)
                if label != "bounds":
                    t = self.fold(t, label.startswith("quad"), k, sub(g))
                got.append(z3.Implies(sub(g), rel(t)))
            self.check("the functions handed over describe exactly the " + label, [k >= 0, k < hi], z3.And(*got) == want(k))

    def check(self, name, hyp, goal):
        self.ctx.valid("%s: %s" % (self.name, name), self.eng.facts + self.eng.pc + hyp, goal)

    def fold(self, t, quad, k, g):
        """t with the left-hand side replaced by one constant (t is +-lhs + something without sums)."""
        s = self.src
        lhs = s.lhs_q(k, self.y) if quad else s.lhs_l(k, self.y)
        P = norm.Prover(self.eng.facts + self.eng.pc + [k >= 0, k < (s.q if quad else s.m), g], 4000)
        for sign in (1, -1):
            plain = z3.RealVal(0)
            for coef, mono in P.nf(t - sign * lhs).values():
                if mono.binders or mono.inds:
                    break
                f = z3.RealVal(coef)
                for a, p in mono.facs.values():
                    for _ in range(p):
                        f = f * a
                plain = plain + f
            else:
                return sign * z3.Real("lhs_q" if quad else "lhs_l") + plain
        self.ctx.record("%s: a constraint function is the distance from the right-hand side" % self.name, False, str(z3.simplify(t))[:600], "", time.time())
        return t

    def started(self, x0):
        n, _ = vec_at(self.eng, x0, z3.Int("any"))
        self.check("start vector has one entry per variable", [], n == self.src.n)

    # ---- back ends
    def cobyla(self, e, a, k):
        v = dict(zip(["func", "x0", "cons", "args", "consargs", "rhobeg", "rhoend", "maxfun", "disp", "catol"], a))
        v.update(k)
        if v.get("args") or v.get("consargs"):
            raise Unsupported("extra arguments of fmin_cobyla")
        self.objective(v["func"])
        self.compare([(self.functions(v["cons"]), lambda t: t >= 0)], self.spec())
        self.started(v["x0"])
        for o in ("rhobeg", "rhoend", "maxfun", "disp", "catol"):
            if o in self.options:
                self.ctx.fact("%s: option %s is handed over" % (self.name, o), v.get(o) is self.options[o])
        return self.outcome()

    def slsqp(self, e, a, k):
        v = dict(zip(["func", "x0", "eqcons", "f_eqcons", "ieqcons", "f_ieqcons", "bounds", "fprime"], a))
        v.update(k)
        bad = set(v) - {"func", "x0", "eqcons", "ieqcons", "bounds", "fprime", "iter", "acc", "iprint", "full_output"}
        if bad:
            raise Unsupported("arguments %s of fmin_slsqp" % bad)
        self.objective(v["func"])
        if v.get("fprime") is not None:
            self.gradient(v["fprime"])
        self.compare([(self.functions(v.get("eqcons", ())), lambda t: t == 0), (self.functions(v.get("ieqcons", ())), lambda t: t >= 0)], self.spec()[1:])
        self.bounds(v.get("bounds"))
        self.started(v["x0"])
        for o in ("iter", "acc", "iprint"):
            if o in self.options:
                self.ctx.fact("%s: option %s is handed over" % (self.name, o), v.get(o) is self.options[o])
        if self.eng.truth(v.get("full_output", False)):
            return (self.outcome(),) + tuple(self.extra)
        return self.outcome()

    def bounds(self, ref):
        e, s = self.eng, self.src
        c = e.cell(ref) if isinstance(ref, Ref) else None
        if not (isinstance(c, ListV) and len(c.segs) == 1 and len(c.segs[0].binders) == 1 and z3.is_true(c.segs[0].guard)):
            raise Unsupported("bounds %r" % (c,))
        sg = c.segs[0]
        b = sg.binders[0]
        pair = lib.materialise(e, sg.val)
        if not isinstance(pair, tuple):
            c2 = e.cell(pair) if isinstance(pair, Ref) else None
            if not (isinstance(c2, ListV) and all(not x.binders for x in c2.segs)):
                raise Unsupported("bounds entry %r" % (pair,))
            pair = tuple(x.val for x in c2.segs)
        self.check("one pair of bounds per variable, in order", [], z3.And(b.lo == 0, b.hi == s.n))
        if len(pair) != 2 or not all(isz(lib.num(x)) for x in pair):
            raise Unsupported("bounds entry %r" % (pair,))
        self.check("bounds handed over are the variable's", [b.range()], z3.And(real(pair[0]) == s.lb(b.var), real(pair[1]) == s.ub(b.var)))


CONT = lambda s: [z3.ForAll([z3.Int("qi")], z3.Implies(z3.And(0 <= z3.Int("qi"), z3.Int("qi") < s.n), s.vt(z3.Int("qi")) == 0), patterns=[s.vt(z3.Int("qi"))])]


def result_of(ctx, nm, eng, src, facts, cells, r, x, fval, raw):
    """An OptimizationResult for the point x."""
    save, pc = eng.cells, eng.pc
    eng.cells, eng.pc = dict(cells), []
    try:
        g = lambda a: eng.getattr(r, a)
        xv = g("x")
        i = z3.Int("ri")
        n, v = vec_at(eng, xv, i)
        ctx.valid(nm + "x has one entry per variable", facts, n == src.n)
        ctx.valid(nm + "x is the point found", facts + [i >= 0, i < src.n], v == real(aprog.vec_entry(x, i)))
        ctx.eq(nm + "fval", facts, g("fval"), fval)
        st = g("status")
        ok = aprog.feasible_term(eng, src.ref, x)
        ctx.valid(nm + "SUCCESS exactly if the point is feasible, otherwise INFEASIBLE", facts,
                  lib.enum_term(st) == z3.If(ok, iv(0), iv(2)) if not isinstance(st, EnumV) else (ok if st.name == "SUCCESS" else z3.And(z3.Not(ok), st.name == "INFEASIBLE")))
        if raw is not None:
            ctx.fact(nm + "raw results are those of the reported point", raw(g("raw_results")))
        vs = g("variables")
        c = eng.cell(vs) if isinstance(vs, Ref) else None
        if not (isinstance(c, ListV) and len(c.segs) == 1 and len(c.segs[0].binders) == 1):
            raise Unsupported("variables of the result %r" % (vs,))
        b = c.segs[0].binders[0]
        ctx.valid(nm + "variables are the problem's", facts + [b.range()], z3.And(b.lo == 0, b.hi == src.n, c.segs[0].guard, c.segs[0].val.attrs["name"] == V(b.var, src.prog)))
    finally:
        eng.cells, eng.pc = save, pc


def multi_start(ctx):
    """The reported point is one of the points found, no other point found is better, value and status are those of the point."""
    case = Case(ctx, "multi_start_solve")
    eng, src = case.eng, case.src
    eng.facts += CONT(src)
    T = z3.Int("trials")
    t = freshi("t")
    S = z3.Function("sol", I, I, R)
    val = lambda t: z3.ToReal(src.sense) * real(eng.call(eng.getattr(eng.getattr(src.ref, "objective"), "evaluate"), [xvec("sol", [t], src.n)]))
    ctx.eq("multi_start_solve: lemma: value of a point", eng.facts, val(t), z3.ToReal(src.sense) * src.obj_val(lambda i: S(t, i)))
    eng.facts += [T >= 1]
    count = z3.Function("raw", I, I)

    def minimize(e, a, k):
        case.started(a[0])
        tr = [b for b in e.binders if b.sort() == I]
        if len(tr) != 1:
            raise Unsupported("minimize is not called once per trial")
        return (xvec("sol", tr, src.n), count(tr[0]))

    def go():
        opt = eng.call(eng.resolve(ALG + "cobyla_optimizer.CobylaOptimizer"), [], {"trials": T, "clip": z3.Real("clip")})
        return eng.call(eng.getattr(opt, "multi_start_solve"), [NativeV("local optimizer", minimize), src.ref])
    n = 0
    for k, p in enumerate(eng.explore(go)):
        nm = "multi_start_solve path %d: " % k
        facts = eng.facts + p.pc
        if p.out == "raise":
            ctx.valid(nm + "raises only if every value found is at least 1e20", facts + [t >= 0, t < T], val(t) >= INF)
            continue
        w = best_of(p.pc)
        if w is None:
            # nothing below 1e20 was found: no solution is reported
            ctx.valid(nm + "no point is reported only if every value found is at least 1e20", facts + [t >= 0, t < T], val(t) >= INF)
            continue
        x = xvec("sol", [w], src.n)
        ctx.valid(nm + "the reported point is one of those found", facts, z3.And(w >= 0, w < T))
        result_of(ctx, nm, eng, src, facts, p.cells, p.val, x, src.obj_val(lambda i: S(w, i)), lambda r: isz(r) and r.eq(count(w)))
        ctx.valid(nm + "no point found is better", facts + [t >= 0, t < T], val(w) <= val(t))
        ctx.fact(nm + "the program is left as it was", src.untouched(p.cells))
        n += 1
    ctx.fact("multi_start_solve: some path reports a point", n > 0)
    return eng


def best_of(pc):
    ws = {}
    for x in pc:
        for c in consts(x):
            if c.decl().name().startswith("kbest"):
                ws[c.decl().name()] = c
    if len(ws) > 1:
        raise Unsupported("several best indices")
    return next(iter(ws.values())) if ws else None


def consts(t):
    if z3.is_quantifier(t):
        return consts(t.body())
    out = [t] if z3.is_const(t) else []
    for c in t.children():
        out += consts(c)
    return out


def backend(opt, cls, name, **options):
    def run(ctx):
        case = Case(ctx, name)
        eng, src = case.eng, case.src
        case.options = options
        case.extra = [z3.Real("fx"), z3.Int("its"), z3.Int("imode"), z3.Int("smode")]
        x = xvec("sol", [], src.n)
        raws = []

        def ms(e, a, k):
            v = dict(zip(["self", "minimize", "problem"], a))
            v.update(k)
            if v["problem"] is not src.ref:
                raise Unsupported("another problem is solved")
            i = freshi()
            out = e.call(v["minimize"], [xvec("start", [], src.n)])
            if not (isinstance(out, tuple) and len(out) == 2):
                raise Unsupported("minimize returns %r" % (out,))
            j = z3.Int("rj")
            n, w = vec_at(e, out[0], j)
            case.check("the point found is handed back", [j >= 0, j < src.n], z3.And(n == src.n, w == real(aprog.vec_entry(x, j))))
            e.pc.append(z3.Bool("multi start ran"))
            raws.append(out[1])
            R_ = e.resolve(ALG + "optimization_algorithm.OptimizationResult")
            st = e.call(e.getattr(v["self"], "_get_feasibility_status"), [src.ref, x])
            return e.call(R_, [], {"x": x, "fval": src.obj_val(lambda i: aprog.vec_entry(x, i)), "variables": e.getattr(src.ref, "variables"), "status": st, "raw_results": out[1]})
        eng.overrides[ALG + "multistart_optimizer.MultiStartOptimizer.multi_start_solve"] = NativeV("multi_start_solve (its contract)", ms)

        def go():
            o = eng.call(eng.resolve(ALG + cls), [], dict(options))
            return o, eng.call(eng.getattr(o, "solve"), [src.ref])
        for k, p in enumerate(eng.explore(go)):
            nm = "%s path %d: " % (name, k)
            facts = eng.facts + p.pc
            i = z3.Int("qi")
            noncont = z3.Exists([i], z3.And(i >= 0, i < src.n, src.vt(i) != 0))
            if p.out == "raise":
                ctx.valid(nm + "raises only for variables that are not continuous", facts, noncont)
                continue
            ctx.valid(nm + "solved only if all variables are continuous", facts, z3.Not(noncont))
            ctx.fact(nm + "the result of the multi start is returned", any(str(q) == "multi start ran" for q in p.pc))
            result_of(ctx, nm, eng, src, facts, p.cells, p.val[1], x, src.obj_val(lambda i: aprog.vec_entry(x, i)), None)
            ctx.fact(nm + "the program is left as it was", src.untouched(p.cells))
        return eng
    return run


def build(ctx):
    ctx.assume(*BASIC)
    ctx.contract("MultiStartOptimizer.multi_start_solve", multi_start, par=True)
    ctx.contract("CobylaOptimizer.solve", backend("cobyla", "cobyla_optimizer.CobylaOptimizer", "CobylaOptimizer.solve", rhobeg=z3.Real("rhobeg"), rhoend=z3.Real("rhoend"), maxfun=z3.Int("maxfun"), catol=z3.Real("catol")), par=True)
    for full in (False, True):
        nm = "SlsqpOptimizer.solve (full_output=%s)" % full
        ctx.contract(nm, backend("slsqp", "slsqp_optimizer.SlsqpOptimizer", nm, iter=z3.Int("iter"), acc=z3.Real("acc"), iprint=z3.Int("iprint"), full_output=full), par=True)
    ctx.assume("scipy.optimize.fmin_cobyla / fmin_slsqp return a vector with one entry per variable (any such vector); objective values found are below 1e20",
               "Objective.evaluate / Constraint.evaluate / evaluate_gradient: their contracts (property C01); QuadraticProgram.is_feasible: its contract (C04)",
               "every variable, constraint and trial is treated alike: the loops are summarised for all numbers of them")
    ctx.beyond("CplexOptimizer, GurobiOptimizer", "the solvers are not installed; their adapters go through the docplex / gurobipy translators (C03)")
    ctx.beyond("quality of the point found", "numerical back ends")
