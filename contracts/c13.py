"""C13: recursive elimination (the real RecursiveMinimumEigenOptimizer functions; the loop by an invariant over an arbitrary reduced program)."""
from .common import *
from pv import loops, whiles
from pv.interp import BreakEx, ContinueEx, Infeasible

RM = PRE + "algorithms.recursive_minimum_eigen_optimizer."
CLS = RM + "RecursiveMinimumEigenOptimizer"
OA = PRE + "algorithms.optimization_algorithm."
ALL = z3.Function("original_name", Name, B)         # names of the variables of the converted program
DOM = z3.Function("replaced", Name, B)              # names with a recorded replacement
REL = z3.Function("replaced_by", Name, Name)
SGN = z3.Function("replacement_sign", Name, I)
VAL = z3.Function("implied_value", Name, R)         # the value implied by the recorded relations
POS = z3.Function("position_of_name", Name, I)
TINY = z3.RealVal("1/1000000000")


def fn(nm, *s):
    return z3.Function(nm, *s)


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        eng = self.eng = setup()
        self.count, self.muted = {}, 0
        self.head = self.step = None
        self.recursing = False
        nat, H, ov, oh = eng.natives, eng.rec_handlers, eng.overrides, eng.obj_handlers
        st = eng.resolve(PRE + "problems.quadratic_program.QuadraticProgramStatus")
        self.valid_status = eng.getattr(st, "VALID")
        oh["GProg", "variables"] = (lambda e, o: Rec("gvars", {"prog": o}),)
        oh["GProg", "get_num_vars"] = self.num_vars
        oh["GProg", "substitute_variables"] = self.substitute
        H["gvars", "__len__"] = lambda e, a, k: e.cell(a[0].attrs["prog"]).fields["n"]
        H["gvars", "__iter__"] = self.all_vars
        H["gvars", "__getitem__"] = self.one_var
        for nm in ("lowerbound", "upperbound"):
            oh["GVar", nm] = (lambda e, o, nm=nm: self.bound(e, o, nm),)
            eng.obj_setters["GVar", nm] = lambda e, o, v, nm=nm: self.set_bound(e, o, nm, v)
        for c in ("GLin", "GQuad", "Mat"):
            eng.obj_ops[c, "__setitem__"] = self.write
            eng.obj_ops[c, "__getitem__"] = self.read
        eng.loop_hooks += [self.pointwise, self.completing]
        eng.while_hooks.append(self.loop)
        eng.call_hooks.append(self.recursive)
        eng.obj_ops["RMap", "__contains__"] = lambda e, a, k: DOM(lib.as_name(e, a[1]))
        eng.obj_ops["RMap", "__getitem__"] = self.related
        eng.obj_ops["RMap", "__setitem__"] = self.relate
        eng.obj_ops["VMap", "__contains__"] = lambda e, a, k: self.dom(e, a[0])(lib.as_name(e, a[1]))
        eng.obj_ops["VMap", "__getitem__"] = self.valued
        eng.obj_ops["VMap", "__setitem__"] = self.value
        oh["Records", "append"] = self.record
        oh["Mat", "flatten"] = oh["Mat", "ravel"] = lambda e, a, k: Rec("flat", {"f": e.cell(a[0]).fields["f"].attrs["f"], "n": e.cell(a[0]).fields["n"]})
        oh["Mat", "__len__"] = eng.obj_ops["Mat", "__len__"] = lambda e, a, k: e.cell(a[0]).fields["n"]
        H["corr", "__getitem__"] = lambda e, a, k: self.entry(e, a[0].attrs["f"], a[0].attrs["n"], a[1])
        H["corr", "__len__"] = lambda e, a, k: a[0].attrs["n"]
        old_abs = nat.get("numpy.abs")

        def absolute(e, a, k):
            if isinstance(a[0], Rec) and a[0].kind == "corr":
                f = a[0].attrs["f"]
                return e.new(ObjV("Mat", {"f": Rec("fn", {"f": lambda i, j: z3.If(f(i, j) >= 0, f(i, j), -f(i, j))}), "n": a[0].attrs["n"]}))
            if old_abs is None:
                v = real(a[0])
                return z3.If(v >= 0, v, -v)
            return e.call(old_abs, a, k)
        nat["numpy.abs"] = nat["numpy.absolute"] = NativeV("abs", absolute)
        nat["numpy.argmax"] = NativeV("argmax", self.argmax)
        self.problem = Rec("program", {"which": "original"}, ("original program",))
        self.convs = Rec("converters", {}, ("converters",))
        ov[OA + "OptimizationAlgorithm._verify_compatibility"] = NativeV("_verify_compatibility", lambda e, a, k: None)
        ov[OA + "OptimizationAlgorithm._convert"] = NativeV("_convert", self.convert)
        ov[OA + "OptimizationAlgorithm._interpret"] = NativeV("_interpret", lambda e, a, k: Rec("result", dict(k)) if len(a) <= 1 else self.no("positional arguments of _interpret"))
        H["solver", "solve"] = self.sub
        H["subresult", "get_correlations"] = self.correlations
        self.hist = z3.Int("history")
        self.min_vars = z3.Int("min_num_vars")
        self.me = eng.new(ObjV(eng.raw_class(CLS), {"_optimizer": Rec("solver", {"which": "reduction"}), "_min_num_vars_optimizer": Rec("solver", {"which": "final"}), "_min_num_vars": self.min_vars,
                                                   "_penalty": None, "_history": SymEnum("IntermediateResult", self.hist), "_converters": self.convs}))
        # the converted program
        self.n0 = z3.Int("n_converted")
        self.name0 = fn("converted_name", I, Name)
        self.ref = self.new_prog("converted", self.n0, self.name0)
        q, x = z3.Int("q"), z3.Const("x", Name)
        rng = lambda q, n: z3.And(q >= 0, q < n)
        self.rng = rng
        eng.facts += [self.n0 >= 1, self.min_vars >= 1, self.hist >= 0, self.hist <= 2,
                      z3.ForAll([q], z3.Implies(rng(q, self.n0), ALL(self.name0(q))), patterns=[self.name0(q)])]

    def no(self, why):
        raise Unsupported(why)

    def log(self, e, nm, goal, extra=()):
        if self.muted:
            return
        self.count[nm] = self.count.get(nm, 0) + 1
        nm = "%s (%d)" % (nm, self.count[nm])
        if isinstance(goal, bool):
            self.ctx.fact(nm, goal)
        else:
            self.ctx.valid(nm, e.facts + e.pc + list(extra), goal)

    # ---- programs
    def new_prog(self, tag, n, name, e=None):
        eng = e or self.eng
        lin, quad = fn(tag + "_linear", I, R), fn(tag + "_quadratic", I, I, R)
        l = eng.new(ObjV("GLin", {"f": Rec("fn", {"f": lin}), "n": n}))
        q = eng.new(ObjV("GQuad", {"f": Rec("fn", {"f": quad}), "n": n}))
        obj = eng.new(ObjV("GObj", {"linear": l, "quadratic": q, "constant": z3.Real(tag + "_constant")}))
        return eng.new(ObjV("GProg", {"objective": obj, "n": n, "name": Rec("fn", {"f": name}), "status": self.valid_status,
                                      "lowerbound": Rec("fn", {"f": lambda k: z3.RealVal(0)}), "upperbound": Rec("fn", {"f": lambda k: z3.RealVal(1)})}))

    def num_vars(self, e, a, k):
        if len(a) > 1 or k:
            raise Unsupported("get_num_vars of a type")
        return e.cell(a[0]).fields["n"]

    def all_vars(self, e, a, k):
        f = e.cell(a[0].attrs["prog"]).fields
        b = Binder(freshi(), iv(0), f["n"])
        return SeqV([Seg([b], TRUE, Rec("gvar", {"prog": a[0].attrs["prog"], "k": b.var, "name": f["name"].attrs["f"](b.var)}))])

    def one_var(self, e, a, k):
        f = e.cell(a[0].attrs["prog"]).fields
        i = lib.num(a[1])
        if not e.entailed(z3.And(i >= 0, i < f["n"])):
            raise Unsupported("variable index")
        return e.new(ObjV("GVar", {"prog": a[0].attrs["prog"], "k": i, "name": f["name"].attrs["f"](i)}))

    def bound(self, e, o, nm):
        c = e.cell(o).fields
        return e.cell(c["prog"]).fields[nm].attrs["f"](c["k"])

    def set_bound(self, e, o, nm, v):
        c = e.cell(o).fields
        p = e.cell(c["prog"])
        old, at, v = p.fields[nm].attrs["f"], c["k"], real(v)
        e.put(c["prog"], ObjV("GProg", dict(p.fields, **{nm: Rec("fn", {"f": lambda k: z3.If(k == at, v, old(k))})})))

    # ---- coefficients
    rec = None

    def keys(self, e, cell, k):
        k = tuple(lib.num(x) for x in k) if isinstance(k, tuple) else (lib.num(k),)
        n = cell.fields["n"]
        for x in k:
            if not e.entailed(z3.And(x >= 0, x < n)):
                raise Unsupported("coefficient index")
        if cell.cls == "GQuad":
            i, j = k
            k = (i, j) if i.eq(j) else (z3.If(i <= j, i, j), z3.If(i <= j, j, i))
        return k

    def entry(self, e, f, n, k):
        i, j = (lib.num(x) for x in k)
        if not e.entailed(z3.And(i >= 0, i < n, j >= 0, j < n)):
            raise Unsupported("matrix index")
        return f(i, j)

    def write(self, e, a, k):
        c = e.cell(a[0])
        key, v = self.keys(e, c, a[1]), real(a[2])
        if self.rec is not None:
            self.rec.append((a[0].id, key, v))
            return
        old = c.fields["f"].attrs["f"]
        e.put(a[0], ObjV(c.cls, dict(c.fields, f=Rec("fn", {"f": lambda *ix: z3.If(z3.And(*[x == y for x, y in zip(ix, key)]), v, old(*ix))}))))

    def read(self, e, a, k):
        c = e.cell(a[0])
        key = self.keys(e, c, a[1])
        if self.rec is not None:
            if any(r[0] == a[0].id for r in self.rec):
                raise Unsupported("coefficient read back")
            self.reads.append((a[0].id, key))
        return c.fields["f"].attrs["f"](*key)

    def pointwise(self, eng, seq, assign, body, sc):
        """A loop over indices in which iteration k writes entry k only (and reads no entry that another one writes)."""
        if self.rec is not None or len(seq.segs) != 1 or len(seq.segs[0].binders) != 1 or not z3.is_true(seq.segs[0].guard) or not isz(seq.segs[0].val):
            return False
        sg = seq.segs[0]
        b = sg.binders[0]
        pre, pc0, limit = dict(eng.cells), list(eng.pc), eng.next
        out = []
        self.muted += 1
        try:
            eng.pc = pc0 + [b.range()]

            def one():
                self.rec, self.reads = [], []
                assign(lib.materialise(eng, sg.val))
                body()
                out.append((self.rec, self.reads))
            ps = eng.explore(one)
        except Unsupported:
            if not self.rec:
                return False
            raise
        finally:
            self.rec, eng.cells, eng.pc = None, pre, pc0
            self.muted -= 1
        if not any(w for w, r in out):
            return False
        frames = {x.id for x in sc.frames}
        cases, cid = [], None
        for p, (w, r) in zip(ps, out):
            if p.out != "normal" or len(out) != len(ps):
                raise Unsupported("loop over coefficients")
            if any(c not in frames for c, f in loops._mods(pre, p.cells, limit)):
                raise Unsupported("loop over coefficients changes something else")
            if not w:
                cases.append((p.pc, None))
                continue
            if len(w) != 1 or cid not in (None, w[0][0]) or not w[0][1][0].eq(b.var):
                raise Unsupported("loop over coefficients writes elsewhere")
            cid = w[0][0]
            cases.append((p.pc, w[0]))
        for w, r in out:
            if any(c == cid and not key[0].eq(b.var) for c, key in r):
                raise Unsupported("loop over coefficients reads another entry")
        left = {u for p in ps for u in loops._mods(pre, p.cells, limit)}
        eng.cells = dict(pre)
        c = eng.cells[cid]
        old = c.fields["f"].attrs["f"]

        def new(*ix):
            v = old(*ix)
            m = [(b.var, ix[0])]
            for pc, w in cases:
                if w is None:
                    continue
                cond = band(subst(b.range(), m), *[subst(f, m) for f in pc if not z3.is_quantifier(f)], *[x == subst(y, m) for x, y in list(zip(ix, w[1]))[1:]])
                v = z3.If(cond, subst(w[2], m), v)
            return v
        eng.cells[cid] = ObjV(c.cls, dict(c.fields, f=Rec("fn", {"f": new})))
        for c, f in left:
            eng.cells[c] = ObjV(eng.cells[c].cls, dict(eng.cells[c].fields, **{f: Poison("last value in a loop over coefficients")}))
        return True

    # ---- matrices
    def argmax(self, e, a, k):
        v = a[0]
        if k or len(a) > 1 or isinstance(v, Ref) and isinstance(e.cell(v), ObjV) and e.cell(v).cls != "Mat" or not isinstance(v, (Ref, Rec)):
            raise Unsupported("argmax")
        if isinstance(v, Ref):
            v = Rec("flat", {"f": e.cell(v).fields["f"].attrs["f"], "n": e.cell(v).fields["n"]})
        f, n = v.attrs["f"], v.attrs["n"]
        m, r, c = lib.skolem(e, "argmax", I), lib.skolem(e, "argmax_row", I), lib.skolem(e, "argmax_column", I)
        i, j = z3.Ints("i j")
        rng = self.rng
        e.aux_fact(z3.And(rng(r, n), rng(c, n), m == r * n + c, m / n == r, m % n == c))
        self.largest = (r, c)
        self.upper = lambda i, j: z3.Implies(z3.And(rng(i, n), rng(j, n)), f(i, j) <= f(r, c))
        return m

    # ---- the calls
    def convert(self, e, a, k):
        self.log(e, "solve: the problem is converted by the optimizer's converters", len(a) >= 2 and not k and a[-2] is self.problem and a[-1] is self.convs)
        return self.ref

    def sub(self, e, a, k):
        if len(a) != 2 or k or not isinstance(a[1], Ref) or e.cell(a[1]).cls != "GProg":
            raise Unsupported("solve of a sub-solver")
        if a[0].attrs["which"] == "final":
            if self.head is None:
                raise Unsupported("final solver called before the loop")
            self.log(e, "solve: the remaining variables are solved in the reduced program", self.same(e, a[1], self.head))
            return Rec("final", {"x": vec(fn("solution_value", I, R), e.cell(a[1]).fields["n"])})
        return Rec("subresult", {"prog": a[1]})

    def correlations(self, e, a, k):
        return Rec("corr", {"f": fn("correlation", I, I, R), "n": e.cell(a[0].attrs["prog"]).fields["n"]})

    def strongest(self, e, a, k):
        if k or not isinstance(a[-1], Rec) or a[-1].kind != "corr":
            raise Unsupported("correlations")
        n = a[-1].attrs["n"]
        self.log(e, "solve: correlations of at least two variables are compared", n >= 2)
        i, j = lib.skolem(e, "eliminated", I), lib.skolem(e, "kept", I)
        e.aux_fact(z3.And(i >= 0, i < n, j >= 0, j < n, i != j))
        return (i, j)

    def get(self, e, ref):
        p = e.cell(ref).fields
        o = e.cell(p["objective"]).fields
        return (p, real(o["constant"]), e.cell(o["linear"]).fields["f"].attrs["f"], e.cell(o["quadratic"]).fields["f"].attrs["f"])

    def same(self, e, ref, base):
        """Same variables, bounds and objective as the program at the loop head (with arbitrary indices)."""
        p, c, l, q = self.get(e, ref)
        k, m = z3.Ints("any_k any_m")
        n, name, C, L, Q = base
        r = self.rng
        return z3.And(p["n"] == n, z3.Implies(r(k, n), p["name"].attrs["f"](k) == name(k)), c == C, z3.Implies(r(k, n), l(k) == L(k)),
                      z3.Implies(z3.And(r(k, n), r(m, n), k <= m), q(k, m) == Q(k, m)),
                      z3.Implies(r(k, n), z3.And(p["lowerbound"].attrs["f"](k) == 0, p["upperbound"].attrs["f"](k) == 1)))

    def substitute(self, e, a, k):
        at = dict(zip(["constants", "variables"], a[1:]), **k)
        if set(at) - {"constants", "variables"} or at.get("constants") is not None or not isinstance(at.get("variables"), Ref) or self.head is None:
            raise Unsupported("substitute_variables")
        d = e.cell(at["variables"])
        if not isinstance(d, DictV) or len(d.pieces) != 1 or d.pieces[0].binders or d.base or not isinstance(d.pieces[0].val, tuple):
            raise Unsupported("substitution")
        i, (j, w) = lib.num(d.pieces[0].key), d.pieces[0].val
        j, w = lib.num(j), lib.conc(w)
        if w not in (1, -1) or self.step is not None and self.step.get("pc") == len(e.pc):
            raise Unsupported("weight of a substitution")
        n, name, C, L, Q = self.head
        p, c, l, q = self.get(e, a[0])
        r = self.rng
        K, M = z3.Ints("any_k any_m")
        self.log(e, "step: a variable is replaced by another one", z3.And(r(i, n), r(j, n), i != j))
        self.log(e, "step: the program at hand is the one reduced", z3.And(p["n"] == n, z3.Implies(r(K, n), p["name"].attrs["f"](K) == name(K))))
        lb, ub = p["lowerbound"].attrs["f"], p["upperbound"].attrs["f"]
        if w == 1:
            self.log(e, "step: equal variables: the objective is the one before", z3.And(c == C, z3.Implies(r(K, n), l(K) == L(K)), z3.Implies(z3.And(r(K, n), r(M, n), K <= M), q(K, M) == Q(K, M))))
            self.log(e, "step: equal variables: bounds as before", z3.Implies(r(K, n), z3.And(lb(K) == 0, ub(K) == 1)))
        else:
            q2 = lambda x, y: z3.If(x <= y, Q(x, y), Q(y, x))
            want = L(K) + z3.If(K == i, 2, 1) * q2(i, K)
            self.log(e, "step: complementary variables: constant of the objective at x + e_i", c == C + L(i) + Q(i, i))
            self.log(e, "step: complementary variables: linear part of the objective at x + e_i", z3.Implies(r(K, n), z3.And(l(K) - want <= TINY, want - l(K) <= TINY)))
            self.log(e, "step: complementary variables: quadratic part of the objective at x + e_i", z3.Implies(z3.And(r(K, n), r(M, n), K <= M), q(K, M) == Q(K, M)))
            self.log(e, "step: complementary variables: bounds of the shifted variable only", z3.Implies(r(K, n), z3.And(lb(K) == z3.If(K == i, -1, 0), ub(K) == z3.If(K == i, 0, 1))))
        self.serial += 1
        new = self.new_prog("reduced_%d" % self.serial, n - 1, lambda x: name(z3.If(x < i, x, x + 1)), e)
        e.put(self.ghost, ObjV("Ghost", {"step": Rec("step", {"i": i, "j": j, "w": w}), "new": new}))
        return new

    serial = 0

    # ---- the loop
    def loop(self, eng, s, sc):
        if self.head is not None:
            return False
        frame = sc.frames[0].id if len(sc.frames) == 1 else None
        if frame is None:
            raise Unsupported("loop in a nested function")
        S0, pc0 = dict(eng.cells), list(eng.pc)
        local = S0[frame].fields
        progs = {nm: v for nm, v in local.items() if isinstance(v, Ref) and isinstance(S0[v.id], ObjV) and S0[v.id].cls == "GProg"}
        if any(v.id == self.ref.id for v in progs.values()):
            pass
        n, name = z3.Int("n_reduced"), fn("reduced_name", I, Name)

        def once():
            try:
                eng.block(s.body, sc)
            except ContinueEx:
                pass
        q, x = z3.Int("q"), z3.Const("x", Name)
        rng = self.rng
        lib.INJ[name.name()] = POS
        inv = [n >= 1, n <= self.n0,
               z3.ForAll([q], z3.Implies(rng(q, n), z3.And(ALL(name(q)), z3.Not(DOM(name(q))), POS(name(q)) == q)), patterns=[name(q)]),
               z3.ForAll([x], z3.Implies(z3.And(ALL(x), z3.Not(DOM(x))), z3.And(rng(POS(x), n), name(POS(x)) == x)), patterns=[ALL(x)]),
               z3.ForAll([x], z3.Implies(DOM(x), z3.And(ALL(x), ALL(REL(x)), z3.Or(SGN(x) == 1, SGN(x) == -1))), patterns=[DOM(x)])]
        # which locals does an iteration change?
        H = dict(S0)
        fields = dict(local)
        self.head = (n, name, z3.Real("reduced_constant"), fn("reduced_linear", I, R), fn("reduced_quadratic", I, I, R))
        changed, poisoned = set(), set()
        self.ghost = eng.new(ObjV("Ghost", {"step": None, "new": None}))
        H[self.ghost.id] = eng.cells[self.ghost.id]
        limit = eng.next
        base = self.new_prog("reduced", n, name)
        fresh = {k: v for k, v in eng.cells.items() if k not in S0}
        rmap, recs = eng.new(ObjV("RMap", {"writes": ()})), eng.new(ObjV("Records", {"added": ()}))
        fresh.update({rmap.id: eng.cells[rmap.id], recs.id: eng.cells[recs.id]})
        H.update(fresh)
        current, table, listing = set(), set(), set()
        self.first(eng, local, S0)
        for _ in range(12):
            f = dict(fields)
            for nm in current:
                f[nm] = base
            for nm in table:
                f[nm] = rmap
            for nm in listing:
                f[nm] = recs
            for nm in poisoned:
                f[nm] = Poison("carried round the elimination loop")
            H[frame] = ObjV(S0[frame].cls, f)
            eng.cells, eng.pc = dict(H), pc0 + inv
            start = dict(H)
            self.muted += 1

            def body():
                if not whiles.holds(eng, s, sc):
                    raise Infeasible()
                once()
            try:
                ps = eng.explore(body)
            finally:
                self.muted -= 1
                eng.cells, eng.pc = dict(S0), pc0
            more, before = False, (set(current), set(table), set(listing))
            for p in ps:
                if p.out not in ("normal", "raise"):
                    raise Unsupported("elimination loop left from inside")
                if p.out == "raise":
                    continue
                for cid, fl in loops._mods(start, p.cells, limit):
                    if cid == self.ghost.id or cid in fresh:
                        continue
                    if cid == frame:
                        v = p.cells[frame].fields.get(fl)
                        old = local.get(fl)
                        grp = current if isinstance(v, Ref) and isinstance(p.cells[v.id], ObjV) and p.cells[v.id].cls == "GProg" and isinstance(old, Ref) else poisoned
                        if fl not in current | poisoned:
                            grp.add(fl)
                            more = True
                    elif fl is None and isinstance(S0.get(cid), (DictV, ListV)):
                        names = [nm for nm, v in local.items() if isinstance(v, Ref) and v.id == cid]
                        grp = table if isinstance(S0[cid], DictV) else listing
                        if not names or set(names) <= before[1] | before[2]:
                            raise Unsupported("elimination loop changes an object")
                        grp.update(names)
                        more = True
                    elif cid in {c for v in progs.values() for c in self.cells_of(S0, v)}:
                        nm = [nm for nm, v in progs.items() if cid in self.cells_of(S0, v)]
                        if set(nm) <= before[0]:
                            raise Unsupported("elimination loop changes a program %s %s %s %s" % (cid, fl, progs, current))
                        current.update(nm)
                        more = True
                    else:
                        raise Unsupported("elimination loop changes an object")
            if not more:
                break
        else:
            raise Unsupported("elimination loop")
        if len(current) != 1 or len(table) != 1:
            raise Unsupported("elimination loop: which program, which table")
        cur = next(iter(current))
        if any(nm != cur and v.id == local[cur].id for nm, v in progs.items()):
            raise Unsupported("the reduced program has two names")
        if self.cells_of(S0, local[cur]) & self.cells_of(S0, self.ref):
            self.log(eng, "solve: the converted program is not modified", False)
        eng.cells = dict(S0)
        self.log(eng, "loop entry: the reduced program is the converted one", self.same(eng, local[cur], (self.n0, self.name0, z3.Real("converted_constant"), fn("converted_linear", I, R), fn("converted_quadratic", I, I, R))))
        for nm in table:
            self.log(eng, "loop entry: nothing is replaced", isinstance(S0[local[nm].id], DictV) and not S0[local[nm].id].pieces)
        for nm in listing:
            self.log(eng, "loop entry: no results", isinstance(S0[local[nm].id], ListV) and not S0[local[nm].id].segs)
        # one iteration from an arbitrary state
        eng.cells, eng.pc = dict(H), pc0 + inv
        ps = eng.explore(body)
        eng.pc = pc0
        self.paths = 0
        for p in ps:
            nm = "step path %d: " % self.paths
            self.paths += 1
            facts = eng.facts + pc0 + inv + p.pc
            if p.out == "raise":
                self.ctx.fact(nm + "does not raise", False, str(p.val))
                continue
            g = p.cells[self.ghost.id].fields
            if not self.ctx.fact(nm + "one substitution, whose result is the next program", isinstance(g["new"], Ref) and isinstance(p.cells[frame].fields[cur], Ref) and p.cells[frame].fields[cur].id == g["new"].id):
                continue
            st = g["step"].attrs
            w = p.cells[rmap.id].fields["writes"]
            if not self.ctx.fact(nm + "one replacement is recorded", len(w) == 1):
                continue
            self.ctx.valid(nm + "the recorded replacement is the substitution made", facts, z3.And(w[0][0] == name(st["i"]), w[0][1] == name(st["j"]), w[0][2] == st["w"]))
            added = p.cells[recs.id].fields["added"] if recs.id in p.cells else ()
            want = self.hist == 2
            ok = len(added) <= 1 and all(isinstance(v, Rec) and v.kind == "subresult" and v.attrs["prog"].id == base.id for v in added)
            self.ctx.fact(nm + "at most one result is kept, that of the program reduced", ok)
            self.ctx.valid(nm + "the result is kept exactly when all are requested", facts, want == z3.BoolVal(len(added) == 1))
            p1 = p.cells[g["new"].id].fields
            self.ctx.valid(nm + "one variable less", facts, p1["n"] == n - 1)
        self.ctx.fact("some elimination step", self.paths > 0)
        self.exit = dict(base=base, rmap=rmap, recs=recs if listing else None)
        if not listing:
            raise Unsupported("list of results")
        eng.cells = dict(H)
        for f in inv:
            eng.aux_fact(f)
        if whiles.holds(eng, s, sc):
            raise Infeasible()
        eng.aux_fact(z3.ForAll([q], z3.Implies(rng(q, n), VAL(name(q)) == fn("solution_value", I, R)(q)), patterns=[name(q)]))
        eng.aux_fact(z3.ForAll([x], z3.Implies(DOM(x), VAL(x) == z3.If(SGN(x) == 1, VAL(REL(x)), 1 - VAL(REL(x)))), patterns=[DOM(x)]))
        return True

    def first(self, eng, local, S0):
        pass

    def cells_of(self, cells, ref):
        out, todo = set(), [ref]
        while todo:
            r = todo.pop()
            if r.id in out:
                continue
            out.add(r.id)
            c = cells[r.id]
            todo += [v for v in c.fields.values() if isinstance(v, Ref)] if isinstance(c, ObjV) else []
        return out

    def related(self, e, a, k):
        x = lib.as_name(e, a[1])
        if not e.entailed(DOM(x)):
            if not e.branch(DOM(x)):
                e.raise_("KeyError")
        return (REL(x), SGN(x))

    def relate(self, e, a, k):
        v = a[2]
        if not isinstance(v, tuple) or len(v) != 2:
            raise Unsupported("recorded replacement")
        w = e.cell(a[0]).fields["writes"]
        e.put(a[0], ObjV("RMap", {"writes": w + ((lib.as_name(e, a[1]), lib.as_name(e, v[0]), lib.num(v[1])),)}))

    def record(self, e, a, k):
        e.put(a[0], ObjV("Records", {"added": e.cell(a[0]).fields["added"] + (a[1],)}))

    # ---- completing the assignment
    def dom(self, e, ref):
        return e.cell(ref).fields["dom"].attrs["f"]

    def valued(self, e, a, k):
        x = lib.as_name(e, a[1])
        d = self.dom(e, a[0])(x)
        if not e.entailed(d):
            if not e.branch(d):
                e.raise_("KeyError")
        return VAL(x)

    def value(self, e, a, k):
        x, v = lib.as_name(e, a[1]), real(a[2])
        self.log(e, "completion: the value recorded is the implied one", v == VAL(x))
        old = self.dom(e, a[0])
        e.put(a[0], ObjV("VMap", {"dom": Rec("fn", {"f": lambda y: z3.Or(y == x, old(y))})}))

    def vmap(self, e, more=None, at=None):
        """An arbitrary table holding at least the remaining variables (and what it held before)."""
        n, name = self.head[:2]
        self.serial += 1
        D = fn("valued_%d" % self.serial, Name, B)
        q, x = z3.Int("q"), z3.Const("x", Name)
        e.aux_fact(z3.ForAll([q], z3.Implies(self.rng(q, n), D(name(q))), patterns=[name(q)]))
        if more is not None:
            e.aux_fact(z3.ForAll([x], z3.Implies(more(x), D(x)), patterns=[D(x)]))
        if at is not None:
            e.aux_fact(D(at))
        return D

    def tables(self, eng, sc):
        """Local tables name -> value that hold exactly the remaining variables: turned into arbitrary ones."""
        n, name = self.head[:2]
        out = {}
        for fr in sc.frames:
            for nm, v in eng.cells[fr.id].fields.items():
                c = eng.cells.get(v.id) if isinstance(v, Ref) else None
                if isinstance(c, DictV) and c.kind == "dict" and len(c.pieces) == 1 and len(c.pieces[0].binders) == 1 and namesort(c.pieces[0].key) and not c.base:
                    out[v.id] = c.pieces[0]
        return out

    def completing(self, eng, seq, assign, body, sc):
        if self.head is None or self.recursing or len(seq.segs) != 1 or not isinstance(seq.segs[0].val, Rec) or seq.segs[0].val.kind != "gvar":
            return False
        sg = seq.segs[0]
        b = sg.binders[0]
        if not z3.is_true(sg.guard) or not z3.simplify(sg.val.attrs["name"]).eq(self.name0(b.var)) or not z3.is_int_value(b.lo) or not b.hi.eq(self.n0):
            return False
        tabs = self.tables(eng, sc)
        if not tabs:
            return False
        n, name = self.head[:2]
        K = z3.Int("any_k")
        for cid, p in tabs.items():
            bb = p.binders[0]
            if not (z3.is_int_value(bb.lo) and bb.lo.as_long() == 0 and z3.is_true(p.guard)):
                raise Unsupported("table of values")
            m = [(bb.var, K)]
            self.log(eng, "completion: the remaining variables have the values found for them", z3.And(bb.hi == n, z3.Implies(self.rng(K, n), z3.And(subst(p.key, m) == name(K), real(subst(p.val, m)) == VAL(name(K))))))
        for cid in tabs:
            eng.cells[cid] = ObjV("VMap", {"dom": Rec("fn", {"f": self.vmap(eng)})})
        pre, pc0, limit = dict(eng.cells), list(eng.pc), eng.next
        self.recursing = True
        self.called = []
        try:
            eng.pc = pc0 + [b.range()]

            def one():
                assign(lib.materialise(eng, sg.val))
                body()
            ps = eng.explore(one)
            eng.cells, eng.pc = dict(pre), list(pc0)
            frames = {x.id for x in sc.frames}
            for u, p in enumerate(ps):
                nm = "completion path %d: " % u
                if p.out == "raise":
                    self.ctx.fact(nm + "does not raise", False, str(p.val))
                    continue
                if p.out != "normal" or any(c not in frames and c not in tabs for c, f in loops._mods(pre, p.cells, limit)):
                    raise Unsupported("completion loop")
                for cid in tabs:
                    self.ctx.valid(nm + "the variable has a value", eng.facts + pc0 + [b.range()] + p.pc, p.cells[cid].fields["dom"].attrs["f"](self.name0(b.var)))
                for c, f in loops._mods(pre, p.cells, limit):
                    if c in frames:
                        pre[c] = ObjV(pre[c].cls, dict(pre[c].fields, **{f: Poison("last value in the completion loop")}))
            done = set()
            while self.called:
                f, args = self.called.pop()
                if id(f.node) in done:
                    continue
                done.add(id(f.node))
                self.definition(eng, f, args, pre, pc0, tabs)
        finally:
            self.recursing = False
            eng.cells, eng.pc = pre, pc0
        q = z3.Int("q")
        for cid in tabs:
            D = self.vmap(eng)
            eng.aux_fact(z3.ForAll([q], z3.Implies(self.rng(q, self.n0), D(self.name0(q))), patterns=[self.name0(q)]))
            eng.cells[cid] = ObjV("VMap", {"dom": Rec("fn", {"f": D})})
        return True

    def recursive(self, e, f, args, kwargs):
        """Calls of local functions in the completion loop: find the value of a name (contract; verified by definition())."""
        if not self.recursing or f.frame is None or self.defining == id(f.node) and not self.inside:
            return None
        xs = [i for i, v in enumerate(args) if isz(v) and v.sort() == Name]
        if kwargs or len(xs) != 1:
            raise Unsupported("local function in the completion loop")
        x = args[xs[0]]
        self.called.append((f, (list(args), xs[0])))
        self.log(e, "completion: values are asked for variables of the program", ALL(x))
        for cid, c in list(e.cells.items()):
            if isinstance(c, ObjV) and c.cls == "VMap":
                D = self.vmap(e, c.fields["dom"].attrs["f"], x)
                e.cells[cid] = ObjV("VMap", {"dom": Rec("fn", {"f": D})})
        return (VAL(x),)

    defining, inside = None, False

    def definition(self, eng, f, args, pre, pc0, tabs):
        args, at = args
        x = z3.Const("asked_name", Name)
        args = [x if i == at else v for i, v in enumerate(args)]
        eng.cells, eng.pc = dict(pre), list(pc0) + [ALL(x)]
        for cid in tabs:
            eng.cells[cid] = ObjV("VMap", {"dom": Rec("fn", {"f": self.vmap(eng)})})
        mid, pc1, limit = dict(eng.cells), list(eng.pc), eng.next

        def run():
            self.inside = True
            return eng.call_func(f, args, {})
        self.defining = id(f.node)
        try:
            ps = eng.explore(run)
        finally:
            self.defining, self.inside = None, False
        for u, p in enumerate(ps):
            nm = "%s path %d: " % (f.node.name, u)
            facts = eng.facts + pc1 + p.pc
            if p.out == "raise":
                self.ctx.fact(nm + "does not raise", False, str(p.val))
                continue
            if not isz(p.val):
                raise Unsupported("value of a local function")
            if any(c not in tabs for c, fl in loops._mods(mid, p.cells, limit)):
                raise Unsupported("local function changes something else")
            self.ctx.valid(nm + "returns the implied value", facts, real(p.val) == VAL(x))
            for cid in tabs:
                self.ctx.valid(nm + "the variable has a value afterwards", facts, p.cells[cid].fields["dom"].attrs["f"](x))


def namesort(k):
    return isz(k) and k.sort() == Name


def strongest(ctx):
    W = World(ctx)
    eng = W.eng
    n = z3.Int("n_correlations")
    C = fn("correlation", I, I, R)
    eng.facts.append(n >= 2)
    f = eng.getattr(eng.raw_class(CLS), "_find_strongest_correlation")
    for u, p in enumerate(eng.explore(lambda: eng.call(f, [Rec("corr", {"f": C, "n": n})]))):
        nm = "_find_strongest_correlation path %d: " % u
        if not ctx.fact(nm + "returns a pair", p.out != "raise" and isinstance(p.val, tuple) and len(p.val) == 2, str(p.val)):
            continue
        i, j = (lib.num(x) for x in p.val)
        a, b = z3.Ints("any_a any_b")
        facts = eng.facts + p.pc + [W.upper(iv(0), iv(1)), W.upper(a, b)]
        ctx.valid(nm + "two different variables", facts, z3.And(i >= 0, i < n, j >= 0, j < n, i != j))
        ab = lambda x: z3.If(x >= 0, x, -x)
        ctx.valid(nm + "no other pair is correlated more strongly", facts + [W.rng(a, n), W.rng(b, n), a != b], ab(C(a, b)) <= ab(C(i, j)))
    ctx.side(eng, prefix="_find_strongest_correlation: ")


def solve(ctx):
    W = World(ctx)
    eng = W.eng
    eng.overrides[CLS + "._find_strongest_correlation"] = NativeV("_find_strongest_correlation", W.strongest)
    done = 0

    def run():
        W.head = None
        r = eng.call(eng.getattr(W.me, "solve"), [W.problem])
        return r, W.exit
    for u, p in enumerate(eng.explore(run)):
        nm = "solve path %d: " % u
        facts = eng.facts + p.pc
        if p.out == "raise":
            ctx.fact(nm + "does not raise", False, str(p.val))
            continue
        done += 1
        r, end = p.val
        if not (isinstance(r, Rec) and r.kind == "result"):
            raise Unsupported("result %r" % (r,))
        at = r.attrs
        ctx.fact(nm + "the result is interpreted in the original problem by all converters", at.get("problem") is W.problem and at.get("converters") is W.convs and getattr(at.get("result_class"), "name", "") == "RecursiveMinimumEigenOptimizationResult")
        i = z3.Int("any_i")
        ln, xi = vec_at(eng, at["x"], i, p.cells)
        ctx.valid(nm + "one entry per variable of the converted program", facts, ln == W.n0)
        ctx.valid(nm + "every entry is the value implied by the recorded replacements", facts + [i >= 0, i < W.n0], xi == VAL(W.name0(i)))
        ctx.fact(nm + "the replacements are returned", isinstance(at.get("replacements"), Ref) and at["replacements"].id == end["rmap"].id)
        h = at.get("history")
        if not isinstance(h, tuple) or len(h) != 2:
            raise Unsupported("history")
        ctx.fact(nm + "the history holds the results kept", isinstance(h[0], Ref) and h[0].id == end["recs"].id)
        if not (h[1] is None or isinstance(h[1], Rec)):
            raise Unsupported("history")
        ctx.valid(nm + "the last result is in the history unless none is requested", facts, z3.BoolVal(h[1] is None) == (W.hist == 0))
        cells, eng.cells = eng.cells, p.cells
        ctx.valid(nm + "the converted program is not modified", facts, W.same(eng, W.ref, (W.n0, W.name0, z3.Real("converted_constant"), fn("converted_linear", I, R), fn("converted_quadratic", I, I, R))))
        eng.cells = cells
    ctx.fact("solve: some path returns", done > 0)
    ctx.side(eng, prefix="solve: ")


def lemma(ctx):
    """One elimination keeps the names partitioned into remaining and replaced ones (the invariant of the loop)."""
    n, i, j, n0 = z3.Ints("n i j n_converted")
    name = fn("reduced_name", I, Name)
    x, xi = z3.Const("x", Name), name(i)
    q = z3.Int("q")
    rng = lambda a, m: z3.And(a >= 0, a < m)
    A = lambda q: z3.Implies(rng(q, n), z3.And(ALL(name(q)), z3.Not(DOM(name(q))), POS(name(q)) == q))
    E = lambda x: z3.Implies(z3.And(ALL(x), z3.Not(DOM(x))), z3.And(rng(POS(x), n), name(POS(x)) == x))
    hyp = [rng(i, n), rng(j, n), i != j, A(i), A(j)]
    new = lambda q: name(z3.If(q < i, q, q + 1))
    dom = lambda x: z3.Or(DOM(x), x == xi)
    pos = lambda x: z3.If(POS(x) < i, POS(x), POS(x) - 1)
    k = z3.If(q < i, q, q + 1)
    ctx.valid("elimination: remaining names are original, not replaced and distinct", hyp + [A(k)], z3.Implies(rng(q, n - 1), z3.And(ALL(new(q)), z3.Not(dom(new(q))), pos(new(q)) == q)))
    ctx.valid("elimination: an original name that is not replaced remains", hyp + [E(x), A(POS(x))], z3.Implies(z3.And(ALL(x), z3.Not(dom(x))), z3.And(rng(pos(x), n - 1), new(pos(x)) == x)))
    ctx.valid("elimination: the name replaced was not replaced before and is replaced by a remaining one", hyp, z3.And(z3.Not(DOM(xi)), ALL(xi), ALL(name(j)), z3.Not(dom(name(j)))))


def shift(ctx):
    """The coefficients required of the shifted objective are those of x -> f(x + e_i): coefficient of every monomial of a quadratic form."""
    a, b, xi, xk, lk, li, qii, qik, c = z3.Reals("q_kk b x_i x_k l_k l_i q_ii q_ik c")
    f = lambda y, z: c + li * y + lk * z + qii * y * y + qik * y * z + a * z * z
    g = (c + li + qii) + (li + 2 * qii) * xi + (lk + qik) * xk + qii * xi * xi + qik * xi * xk + a * xk * xk
    ctx.valid("shifted objective = objective with x_i replaced by x_i + 1 (i and any other variable)", [], g == f(xi + 1, xk))


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("the sub-solvers return arbitrary results (a correlation matrix over the variables of the program given, a value per variable)",
               "QuadraticProgram.substitute_variables: its contract (C05) - the objective with the variable replaced, the other variables in order, feasible when the bounds of both variables agree",
               "the converters' contracts and those of OptimizationAlgorithm (_convert, _interpret: C12) are used, not their bodies; the converted program is a QUBO (binary variables, bounds 0 and 1)",
               "the implied values exist: replacements refer to variables that remained at the time (lemma per elimination step; induction over the steps not mechanised)",
               "numpy.argmax gives the position of a largest entry; a flattened n x n array has entry (r, c) at r * n + c",
               "the loop: partial correctness plus 'one variable less' per step; recursion of find_value: partial correctness",
               "coefficients of at most 1e-10 may be dropped from the linear part")
    ctx.contract("RecursiveMinimumEigenOptimizer._find_strongest_correlation", strongest, par=True)
    ctx.contract("RecursiveMinimumEigenOptimizer.solve", solve, par=True)
    ctx.contract("lemma: names are partitioned", lemma)
    ctx.contract("lemma: shift of a variable", shift)
