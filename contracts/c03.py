"""C03: the tables of QuadraticProgram as a class invariant (the real class; every operation keeps it).

State before an operation: any coherent program.  Its n variables / m linear / q quadratic constraints have arbitrary pairwise
different names (uninterpreted injective functions of the position); the index tables map every name to its position and nothing else.
"""
from .common import *
from .c04 import exists_facts, exc_name

PR = PRE + "problems."
TABLES = {"var": ("_variables", "_variables_index"), "lin": ("_linear_constraints", "_linear_constraints_index"), "quad": ("_quadratic_constraints", "_quadratic_constraints_index")}


class World:
    def __init__(self, may_fail=True):
        eng = self.eng = lib.OPAQUE_NAMES = Engine()
        eng.fresh_tok = lambda: 0
        eng.feas_ms = 300
        F = z3.Function
        self.n = {"var": z3.Int("n"), "lin": z3.Int("m"), "quad": z3.Int("q")}
        self.nm, self.inv = {}, {}
        i = z3.Int("qi")
        for t in TABLES:
            f, g = F("name_" + t, I, Name), F("pos_" + t, Name, I)
            lib.INJ[f.name()] = g
            self.nm[t], self.inv[t] = f, g
            eng.facts += [self.n[t] >= 0, z3.ForAll([i], g(f(i)) == i, patterns=[f(i)])]
        self.vt, self.lb, self.ub = F("vt", I, I), F("lb", I, R), F("ub", I, R)
        eng.facts += [z3.ForAll([i], z3.And(self.vt(i) >= 0, self.vt(i) <= 2), patterns=[self.vt(i)])]
        cls = eng.raw_class(QP)
        eng.overrides[QP] = cls
        fl = {"_name": litname("problem"), "_status": EnumV("QuadraticProgramStatus", "VALID", 0), "_objective": Rec("obj", {"k": 0})}
        self.lists, self.tabs = {}, {}
        for t, (l, d) in TABLES.items():
            b, b2 = self.b(t), self.b(t)
            el = Rec("elem", {"table": t, "name": self.nm[t](b.var)}, (t, b.var))
            if t == "var":
                el.attrs.update(vartype=SymEnum("VarType", self.vt(b.var)), lowerbound=self.lb(b.var), upperbound=self.ub(b.var))
            self.lists[t] = fl[l] = eng.new(ListV([Seg([b], TRUE, el)]))
            self.tabs[t] = fl[d] = eng.new(DictV([Piece([b2], TRUE, self.nm[t](b2.var), b2.var)]))
        self.me = eng.new(ObjV(cls, fl))
        self.made = []
        # the constructors of constraints and objectives may reject their arguments; otherwise they store what they are given
        for mod, nm, args in (("linear_constraint", "LinearConstraint", ["quadratic_program", "name", "linear", "sense", "rhs"]),
                              ("quadratic_constraint", "QuadraticConstraint", ["quadratic_program", "name", "linear", "quadratic", "sense", "rhs"]),
                              ("quadratic_objective", "QuadraticObjective", ["quadratic_program", "constant", "linear", "quadratic", "sense"])):
            T = NType(nm, self.ctor(nm, args))
            self.eng.overrides[PR + mod + "." + nm] = T
            if nm == "QuadraticObjective":
                self.eng.natives["QuadraticObjective.Sense"] = eng.resolve(PR + "quadratic_objective.ObjSense")

    def b(self, t):
        return Binder(freshi(), iv(0), self.n[t])

    def ctor(self, kind, names):
        def fn(eng, a, k):
            vals = dict(zip(names, a))
            vals.update(k)
            if kind != "QuadraticObjective" and eng.branch(z3.Bool("rejects_" + kind)):
                eng.raise_("QiskitOptimizationError")
            return Rec("elem", dict(vals, table=kind), ("new", kind))
        return fn

    def call(self, meth_, *a, **k):
        return self.eng.call(self.eng.getattr(self.me, meth_), list(a), k)


def elem_name(eng, v):
    return as_name(eng, v.attrs["name"] if isinstance(v, Rec) else eng.getattr(v, "name"))


def positions(eng, c):
    """[(binders, guard, position, value)] of a list."""
    out, off = [], iv(0)
    for s in c.segs:
        n = lib.seg_count(s)
        if n is None or c.unordered or c.base is not None:
            raise Unsupported("positions in %r" % (c,))
        pos = off if not s.binders else off + s.binders[0].var - s.binders[0].lo
        out.append((s.binders, s.guard, z3.simplify(pos), s.val))
        off = z3.simplify(off + n)
    return out, off


def coherent(ctx, nm, w, facts, cells, t):
    """The table t of the program is exact: every element's name maps to its position, and every entry of the index is an element's."""
    eng = w.eng
    save, eng.cells = eng.cells, dict(cells)
    l, d = (eng.cell(eng.cell(w.me).fields[x]) for x in TABLES[t])
    if not (isinstance(l, ListV) and isinstance(d, DictV)) or d.base is not None:
        raise Unsupported("tables of the program")
    ps, total = positions(eng, l)
    for k, (bs, g, pos, v) in enumerate(ps):
        key = elem_name(eng, v)
        opts = []
        for p in d.pieces:
            if p.mode != "set":
                raise Unsupported("index table")
            nb, pg, pk, pv = refresh(p.binders, p.guard, p.key, p.val)
            eqs = lib.unify(pk, key)
            if eqs is None:
                continue
            m, conds, rem = lib.solve(nb, eqs)
            if rem:
                raise Unsupported("index lookup")
            opts.append(z3.And(subst(lib.undg(pg), m), *conds, lib.num(vsub(pv, m)) == pos))
        ctx.valid("%severy element of %s is indexed at its position (%d)" % (nm, t, k), facts + [b.range() for b in bs] + [g], bor(*opts))
    for k, p in enumerate(d.pieces):
        nb, pg, pk, pv = refresh(p.binders, p.guard, p.key, p.val)
        opts = []
        for bs, g, pos, v in ps:
            val = lib.num(pv)
            m = []
            if bs:
                m = [(bs[0].var, z3.simplify(val - pos + bs[0].var))]
                if occurs(bs[0].var, m[0][1]):
                    raise Unsupported("position")
            opts.append(z3.And(val == subst(pos, m), *([subst(x.range(), m) for x in bs] + [subst(g, m), subst(elem_name(eng, v), m) == as_name(eng, pk)])))
        ctx.valid("%severy entry of the index of %s is an element's (%d)" % (nm, t, k), facts + [b.range() for b in nb] + [lib.undg(pg)], bor(*opts))
    eng.cells = save
    return ps, total


def untouched(ctx, nm, w, cells, but):
    for t in TABLES:
        if t in but:
            continue
        f = cells[w.me.id].fields
        ctx.fact("%sthe tables of %s are left as they were" % (nm, t), all(f[x] == r and cells[r.id] is w.snap[r.id] for x, r in zip(TABLES[t], (w.lists[t], w.tabs[t]))))


def paths(w, thunk):
    w.snap = dict(w.eng.cells)
    for t, p in enumerate(w.eng.explore(thunk)):
        yield t, p, w.eng.facts + p.pc + [f for x in p.pc for f in exists_facts(x)]


def removal(ctx, quad):
    t = "quad" if quad else "lin"
    meth = "remove_%s_constraint" % ("quadratic" if quad else "linear")
    for label in ("index", "name"):
        w = World()
        eng = w.eng
        i = z3.Int("arg_i")
        k = z3.Const("arg_name", Name)
        n = w.n[t]
        arg = i if label == "index" else k
        nret = 0
        for u, p, facts in paths(w, lambda: w.call(meth, arg)):
            nm = "%s(%s) path %d: " % (meth, label, u)
            untouched(ctx, nm, w, p.cells, [t])
            ps, total = coherent(ctx, nm, w, facts, p.cells, t)
            known = z3.And(i >= -n, i < n) if label == "index" else z3.And(w.inv[t](k) >= 0, w.inv[t](k) < n, w.nm[t](w.inv[t](k)) == k)
            if p.out == "raise":
                ctx.valid(nm + "raises only for an unknown constraint", facts, z3.Not(known))
                continue
            nret += 1
            ctx.valid(nm + "removes only a known constraint", facts, known)
            gone = z3.If(i < 0, i + n, i) if label == "index" else w.inv[t](k)
            ctx.valid(nm + "one constraint less", facts, total == n - 1)
            for kk, (bs, g, pos, v) in enumerate(ps):
                old = v.ident[1] if isinstance(v, Rec) and v.ident[0] == t else None
                if old is None:
                    raise Unsupported("element %r" % (v,))
                ctx.valid("%sthe others stay, in order (%d)" % (nm, kk), facts + [b.range() for b in bs] + [g], pos == z3.If(old < gone, old, old - 1))
                ctx.valid("%sthe removed one is gone (%d)" % (nm, kk), facts + [b.range() for b in bs] + [g], old != gone)
        ctx.fact("%s(%s): some path returns" % (meth, label), nret > 0)
        ctx.side(eng, prefix=meth + ": ")


def adding(ctx, quad):
    t = "quad" if quad else "lin"
    meth = "%s_constraint" % ("quadratic" if quad else "linear")
    kind = "QuadraticConstraint" if quad else "LinearConstraint"
    for label in ("given name", "automatic name"):
        w = World()
        eng = w.eng
        sen = z3.Int("sense_arg")
        cs = eng.resolve(PR + "constraint.ConstraintSense")
        cs.members["convert"] = ("staticmethod", NativeV("convert", lambda e, a, k: e.raise_("QiskitOptimizationError") if e.branch(z3.Bool("bad_sense")) else SymEnum("ConstraintSense", sen)))
        L, Q, rhs = Rec("arg", {"k": 1}), Rec("arg", {"k": 2}), z3.Real("rhs_arg")
        k = z3.Const("arg_name", Name)
        kw = {"linear": L, "sense": Rec("arg", {"k": 3}), "rhs": rhs}
        if quad:
            kw["quadratic"] = Q
        if label == "given name":
            kw["name"] = k
        nret = 0
        n = w.n[t]
        used = z3.And(w.inv[t](k) >= 0, w.inv[t](k) < n, w.nm[t](w.inv[t](k)) == k)
        for u, p, facts in paths(w, lambda: w.call(meth, **kw)):
            nm = "%s(%s) path %d: " % (meth, label, u)
            untouched(ctx, nm, w, p.cells, [t])
            ps, total = coherent(ctx, nm, w, facts, p.cells, t)
            if p.out == "raise":
                ctx.valid(nm + "raises only for a used name, a bad sense or bad coefficients", facts, z3.Or(used, z3.Bool("bad_sense"), z3.Bool("rejects_" + kind)) if label == "given name" else
                          z3.Or(z3.Bool("bad_sense"), z3.Bool("rejects_" + kind)))
                ctx.fact(nm + "raises QiskitOptimizationError", exc_name(p.val) == "QiskitOptimizationError")
                ctx.valid(nm + "a rejected constraint is not stored", facts, total == n)
                continue
            nret += 1
            ctx.valid(nm + "one constraint more", facts, total == n + 1)
            if label == "given name":
                ctx.valid(nm + "a used name is rejected", facts, z3.Not(used))
            if len(ps) != 2 or ps[1][0] or not isinstance(ps[1][3], Rec):
                raise Unsupported("stored constraints %r" % (ps,))
            v = ps[1][3]
            ctx.fact(nm + "the existing ones stay", isinstance(ps[0][3], Rec) and ps[0][3].ident[0] == t and z3.simplify(ps[0][2]).eq(ps[0][0][0].var))
            ctx.fact(nm + "the new constraint is last and is the one returned", v is p.val and v.attrs["table"] == kind, str(v))
            at = v.attrs
            ctx.fact(nm + "it belongs to this program", at["quadratic_program"] == w.me)
            ctx.fact(nm + "it has the given coefficients", at["linear"] is L and (not quad or at["quadratic"] is Q))
            ctx.valid(nm + "it has the given sense and right-hand side", facts, z3.And(lib.enum_term(at["sense"]) == sen, real(at["rhs"]) == rhs))
            if label == "given name":
                ctx.valid(nm + "it has the given name", facts, as_name(eng, at["name"]) == k)
        ctx.fact("%s(%s): some path returns" % (meth, label), nret > 0)
        ctx.side(eng, prefix=meth + ": ")


def lookup(ctx):
    for t, meth, num_ in (("var", "get_variable", "get_num_vars"), ("lin", "get_linear_constraint", "get_num_linear_constraints"), ("quad", "get_quadratic_constraint", "get_num_quadratic_constraints")):
        for label in ("index", "name"):
            w = World()
            i, k, n = z3.Int("arg_i"), z3.Const("arg_name", Name), w.n[t]
            at = z3.If(i < 0, i + n, i) if label == "index" else w.inv[t](k)
            known = z3.And(i >= -n, i < n) if label == "index" else z3.And(at >= 0, at < n, w.nm[t](at) == k)
            nret = 0
            for u, p, facts in paths(w, lambda: w.call(meth, i if label == "index" else k)):
                nm = "%s(%s) path %d: " % (meth, label, u)
                untouched(ctx, nm, w, p.cells, [])
                if p.out == "raise":
                    ctx.valid(nm + "raises only for an unknown element", facts, z3.Not(known))
                    continue
                nret += 1
                if not (isinstance(p.val, Rec) and p.val.ident and p.val.ident[0] == t):
                    raise Unsupported("result %r" % (p.val,))
                ctx.valid(nm + "returns the element", facts, z3.And(known, p.val.ident[1] == at))
            ctx.fact("%s(%s): some path returns" % (meth, label), nret > 0)
            ctx.side(w.eng, prefix=meth + ": ")
        w = World()
        for u, p, facts in paths(w, lambda: w.call(num_)):
            ctx.valid("%s path %d: counts the elements" % (num_, u), facts, lib.num(p.val) == w.n[t] if p.out != "raise" else z3.BoolVal(False))
            untouched(ctx, "%s path %d: " % (num_, u), w, p.cells, [])


def counts(ctx):
    for meth, code in (("get_num_continuous_vars", 0), ("get_num_binary_vars", 1), ("get_num_integer_vars", 2)):
        w = World()
        b = w.b("var")
        want = lib.mk_sum([b], w.vt(b.var) == code, z3.RealVal(1))
        for u, p, facts in paths(w, lambda: w.call(meth)):
            nm = "%s path %d: " % (meth, u)
            ctx.fact(nm + "returns", p.out != "raise")
            if p.out != "raise":
                ctx.eq(nm + "counts the variables of its type", facts, real(p.val), want)
            untouched(ctx, nm, w, p.cells, [])
        ctx.side(w.eng, prefix=meth + ": ")


def resetting(ctx):
    w = World()
    for u, p, facts in paths(w, lambda: w.call("clear")):
        nm = "clear path %d: " % u
        ctx.fact(nm + "returns", p.out != "raise")
        for t in TABLES:
            f = p.cells[w.me.id].fields
            l, d = (p.cells[f[x].id] for x in TABLES[t])
            ctx.fact(nm + "no element and no index entry is left in " + t, not l.segs and l.base is None and not d.pieces and d.base is None, "%s %s" % (l, d))
        o = p.cells[w.me.id].fields["_objective"]
        ctx.fact(nm + "a new objective of this program", isinstance(o, Rec) and o.attrs["table"] == "QuadraticObjective" and o.attrs["quadratic_program"] == w.me)
        ctx.fact(nm + "status VALID", str(p.cells[w.me.id].fields["_status"]).endswith("VALID"), str(p.cells[w.me.id].fields["_status"]))
    ctx.side(w.eng, prefix="clear: ")
    for meth, code in (("minimize", 1), ("maximize", -1)):
        for given in (True, False):
            w = World()
            L, Q, c = Rec("arg", {"k": 1}), Rec("arg", {"k": 2}), z3.Real("const_arg")
            for u, p, facts in paths(w, lambda: w.call(meth, c, L, Q) if given else w.call(meth)):
                nm = "%s%s path %d: " % (meth, "(...)" if given else "()", u)
                ctx.fact(nm + "returns", p.out != "raise")
                untouched(ctx, nm, w, p.cells, [])
                o = p.cells[w.me.id].fields["_objective"]
                if not isinstance(o, Rec) or o.attrs.get("table") != "QuadraticObjective":
                    raise Unsupported("objective %r" % (o,))
                a = o.attrs
                ctx.fact(nm + "it belongs to this program", a["quadratic_program"] == w.me)
                ctx.valid(nm + "its constant", facts, real(a.get("constant", 0.0)) == (c if given else 0))
                ctx.fact(nm + "its coefficients", (a["linear"] is L and a["quadratic"] is Q) if given else (a.get("linear") is None and a.get("quadratic") is None))
                ctx.valid(nm + "its sense", facts, lib.num(lib.enum_term(a["sense"])) == code)
            ctx.side(w.eng, prefix=meth + ": ")


def single(ctx, meth, code):
    for label in ("given name", "automatic name"):
        for bounds in ((True, False) if code != 1 else (False,)):
            w = World()
            eng = w.eng
            k, lo, hi, n = z3.Const("arg_name", Name), z3.Real("lb_arg"), z3.Real("ub_arg"), w.n["var"]
            kw = {}
            if bounds:
                kw.update(lowerbound=lo, upperbound=hi)
            if label == "given name":
                kw["name"] = k
            used = z3.And(w.inv["var"](k) >= 0, w.inv["var"](k) < n, w.nm["var"](w.inv["var"](k)) == k)
            wl, wu = (lo, hi) if bounds else (z3.RealVal(0), z3.RealVal(1) if code == 1 else z3.RealVal("1e20"))
            nret = 0
            for u, p, facts in paths(w, lambda: w.call(meth, **kw)):
                nm = "%s(%s%s) path %d: " % (meth, label, ", bounds" if bounds else "", u)
                untouched(ctx, nm, w, p.cells, ["var"])
                ps, total = coherent(ctx, nm, w, facts, p.cells, "var")
                if p.out == "raise":
                    ctx.fact(nm + "raises QiskitOptimizationError", exc_name(p.val) == "QiskitOptimizationError", exc_name(p.val))
                    ctx.valid(nm + "raises only for a used name or crossed bounds", facts, z3.Or(used, wl > wu) if label == "given name" else wl > wu)
                    ctx.valid(nm + "a rejected variable is not stored", facts, total == n)
                    continue
                nret += 1
                ctx.valid(nm + "one variable more", facts, total == n + 1)
                if label == "given name":
                    ctx.valid(nm + "a used name is rejected", facts, z3.Not(used))
                ctx.valid(nm + "crossed bounds are rejected", facts, wl <= wu)
                if len(ps) != 2 or ps[1][0] or not isinstance(ps[1][3], Ref):
                    raise Unsupported("stored variables %r" % (ps,))
                ctx.fact(nm + "the existing ones stay", isinstance(ps[0][3], Rec) and ps[0][3].ident[0] == "var" and z3.simplify(ps[0][2]).eq(ps[0][0][0].var))
                v = ps[1][3]
                ctx.fact(nm + "the new variable is last and is the one returned", v == p.val)
                save, eng.cells = eng.cells, dict(p.cells)
                new_variable(ctx, nm, w, facts, v, wl, wu, code, k if label == "given name" else None)
                eng.cells = save
            ctx.fact("%s(%s): some path returns" % (meth, label), nret > 0)
            ctx.side(eng, prefix=meth + ": ")


def new_variable(ctx, nm, w, facts, v, wl, wu, code, name):
    eng = w.eng
    ctx.valid(nm + "it has the given bounds", facts, z3.And(real(eng.getattr(v, "lowerbound")) == wl, real(eng.getattr(v, "upperbound")) == wu))
    ctx.valid(nm + "it has the type of the method", facts, lib.num(lib.enum_term(eng.getattr(v, "vartype"))) == code)
    ctx.fact(nm + "it belongs to this program", eng.getattr(v, "quadratic_program") == w.me)
    if name is not None:
        ctx.valid(nm + "it has the given name", facts, as_name(eng, eng.getattr(v, "name")) == name)

class Batch:
    """The loop that adds several variables: after t iterations the first t new variables are at the end of the list, named nn(0..t-1)
    (different from each other and from every older name), each indexed at its position; the local lists grow in step."""

    def __init__(self, ctx, w, tag, count, lo, hi, code, expect):
        self.ctx, self.w, self.tag, self.count, self.lo, self.hi, self.code, self.expect = ctx, w, tag, count, lo, hi, code, expect
        self.nn, self.ng = z3.Function("name_new", I, Name), z3.Function("pos_new", Name, I)
        lib.INJ[self.nn.name()] = self.ng
        i = z3.Int("qi")
        w.eng.facts += [z3.ForAll([i], self.ng(self.nn(i)) == i, patterns=[self.nn(i)])]
        w.eng.loop_hooks.append(self.hook)
        self.end = None

    def elem(self, b):
        return Rec("elem", {"table": "var", "name": self.nn(b), "lowerbound": self.lo, "upperbound": self.hi, "vartype": SymEnum("VarType", iv(self.code))}, ("new", b))

    def fresh(self, t):
        i, w = z3.Int("qi"), self.w
        j = w.inv["var"](self.nn(i))
        return [t >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < t), z3.Not(z3.And(j >= 0, j < w.n["var"], w.nm["var"](j) == self.nn(i)))), patterns=[self.nn(i)])]

    def bb(self, t):
        return Binder(freshi(), iv(0), t)

    def state(self, cells, t, locs):
        w = self.w
        l, d = w.lists["var"], w.tabs["var"]
        b, c = self.bb(t), self.bb(t)
        cells[l.id] = ListV(self.l0.segs + [Seg([b], TRUE, self.elem(b.var))])
        cells[d.id] = DictV(self.d0.pieces + [Piece([c], TRUE, self.nn(c.var), w.n["var"] + c.var)])
        for cid, what in locs.items():
            b = self.bb(t)
            cells[cid] = ListV([Seg([b], TRUE, self.nn(b.var) if what == "name" else self.elem(b.var))])

    def hook(self, eng, seq, assign, body, sc):
        from pv import loops
        w, ctx = self.w, self.ctx
        if len(seq.segs) != 1 or len(seq.segs[0].binders) != 1 or not z3.is_true(seq.segs[0].guard) or seq.unordered:
            return False
        l, d = w.lists["var"], w.tabs["var"]
        f = eng.cell(w.me).fields
        if f["_variables"] != l or f["_variables_index"] != d:
            raise Unsupported("tables replaced")
        s = seq.segs[0]
        pre0, pc0, limit = eng.cells, eng.pc, eng.next
        if self.end is None:
            self.l0, self.d0 = pre0[l.id], pre0[d.id]
            if len(self.l0.segs) != 1 or len(self.d0.pieces) != 1:
                raise Unsupported("tables at the loop")
        elif pre0[l.id] is not self.l0:
            return False
        t = freshi("t")
        b0 = s.binders[0]
        frame = {x.id for x in sc.frames}
        locs, ints, n = {}, set(), w.n["var"]
        for rnd in range(4):
            cells = dict(pre0)
            self.state(cells, t, locs)
            for fid, nm in ints:
                fl = dict(cells[fid].fields) if hasattr(cells[fid], "fields") else None
                if fl is None:
                    raise Unsupported("frame")
                fl[nm] = freshi("h")
                cells[fid] = type(cells[fid])(cells[fid].cls, fl)
            hyp = [t >= 0, b0.lo + t < b0.hi] + self.fresh(t)
            eng.cells, eng.pc = cells, pc0 + hyp
            eng.binders.append(t)
            val = vsub(s.val, [(b0.var, z3.simplify(b0.lo + t))])
            try:
                ps = eng.explore(lambda: (assign(lib.materialise(eng, val)), body()))
            finally:
                eng.cells, eng.pc = pre0, pc0
                eng.binders.pop()
            mods = set()
            for p in ps:
                if p.out not in ("raise", "return"):
                    mods |= loops._mods(cells, p.cells, limit)
            if not any(c == l.id for c, _ in mods):
                return False
            nl, ni = dict(locs), set(ints)
            for c, fld in mods:
                if fld is not None:
                    if c not in frame:
                        raise Unsupported("the loop changes a field")
                    old = pre0[c].fields.get(fld)
                    if old is None and fld not in pre0[c].fields:
                        continue
                    if isinstance(old, int) and not isinstance(old, bool) or isz(old) and old.sort() == I:
                        ni.add((c, fld))
                    else:
                        raise Unsupported("the loop carries %s" % fld)
                elif c not in (l.id, d.id):
                    o = pre0[c]
                    if not isinstance(o, ListV) or (c not in locs and o.segs):
                        raise Unsupported("the loop fills %r" % (o,))
                    new = {("name" if isz(x) and x.sort() == Name or isinstance(x, (str, lib.StrV)) else "var") for p in ps if p.out not in ("raise", "return")
                           for x in [p.cells[c].segs[-1].val]}
                    if len(new) != 1:
                        raise Unsupported("local list")
                    nl[c] = new.pop()
            if nl == locs and ni == ints:
                break
            locs, ints = nl, ni
        else:
            raise Unsupported("loop state does not settle")
        nret = 0
        for u, p in enumerate(ps):
            nm = "%s: loop, path %d: " % (self.tag, u)
            facts = eng.facts + pc0 + hyp + p.pc + [g for x in p.pc for g in exists_facts(x)]
            fc = p.cells[w.me.id].fields
            if any(fc[x] != r for x, r in zip(TABLES["var"], (l, d))):
                raise Unsupported("tables replaced")
            rows, total = coherent(ctx, nm, w, facts, p.cells, "var")
            if p.out == "raise":
                ctx.fact(nm + "raises QiskitOptimizationError", exc_name(p.val) == "QiskitOptimizationError", exc_name(p.val))
                self.raises(nm, facts, t, p)
                continue
            if p.out in ("return", "break"):
                raise Unsupported("the loop leaves early")
            nret += 1
            L, D = p.cells[l.id], p.cells[d.id]
            if len(L.segs) != 3 or L.segs[2].binders or not isinstance(L.segs[2].val, Ref):
                raise Unsupported("new variable %r" % (L.segs,))
            v = L.segs[2].val
            ctx.valid(nm + "one variable is added", facts, total == n + t + 1)
            save, eng.cells = eng.cells, dict(p.cells)
            x = as_name(eng, eng.getattr(v, "name"))
            new_variable(ctx, nm, w, facts, v, self.lo, self.hi, self.code, None)
            if self.expect is not None:
                ctx.valid(nm + "its name is built from the key", facts, x == as_name(eng, self.expect(t)))
            eng.cells = save
            j = freshi("j")
            ctx.valid(nm + "its name is new", facts, z3.And(z3.Implies(z3.And(j >= 0, j < n), w.nm["var"](j) != x), z3.Implies(z3.And(j >= 0, j < t), self.nn(j) != x)))
            ctx.valid(nm + "its bounds are not crossed", facts, self.lo <= self.hi)
            for c, what in locs.items():
                sg = p.cells[c].segs
                if len(sg) != 2 or sg[1].binders:
                    raise Unsupported("local list")
                y = sg[1].val
                ctx.fact(nm + "the collected %s is the new one" % what, y == v) if what == "var" else ctx.valid(nm + "the collected name is the new one", facts, as_name(eng, y) == x)
        ctx.fact(self.tag + ": loop: some iteration completes", nret > 0)
        # the state after the last iteration
        K = z3.simplify(b0.hi - b0.lo)
        cells = dict(eng.cells)
        self.state(cells, K, locs)
        eng.cells = cells
        for fid, nm in ints:
            fl = dict(cells[fid].fields)
            fl[nm] = lib.skolem(eng, "h", I)
            cells[fid] = type(cells[fid])(cells[fid].cls, fl)
        for a in self.fresh(K) + [z3.Implies(K > 0, self.lo <= self.hi)]:
            eng.pc = eng.pc + [a]
        for c, fld in mods:
            if fld is not None and (c, fld) not in ints:
                fl = dict(cells[c].fields)
                fl[fld] = Poison("the loop's last %s" % fld)
                cells[c] = type(cells[c])(cells[c].cls, fl)
        self.end = K
        return True

    def raises(self, nm, facts, t, p):
        w, n = self.w, self.w.n["var"]
        ok = self.lo > self.hi
        if self.expect is not None:
            x = as_name(w.eng, self.expect(t))
            j, g = w.inv["var"](x), self.ng(x)
            ok = z3.Or(ok, z3.And(j >= 0, j < n, w.nm["var"](j) == x), z3.And(g >= 0, g < t, self.nn(g) == x))
        self.ctx.valid(nm + "raises only for a used name or crossed bounds", facts, ok)


def batch(ctx, meth, code, kind):
    """continuous_var_list, ... : kind = "list" or "dict"."""
    cases = [(False, g, "{}", s) for g in (False, True) for s in (False, True)]
    if meth == "continuous_var_list":
        cases += [(True, True, f, s) for f in ("{}", "_{}", "") for s in (False, True)]
    for bounds, given, fmt, seqk in cases:
        w = World()
        eng = w.eng
        K, nkey, kk = z3.Int("count_arg"), z3.Int("nkeys"), z3.Function("key_arg", I, Name)
        name, lo, hi, n = z3.Const("arg_name", Name), z3.Real("lb_arg"), z3.Real("ub_arg"), w.n["var"]
        eng.facts += [nkey >= 0]
        bk = Binder(freshi(), iv(0), nkey)
        keys = eng.new(ListV([Seg([bk], TRUE, kk(bk.var))])) if seqk else K
        kw = {}
        if bounds:
            kw.update(lowerbound=lo, upperbound=hi)
        if given:
            kw["name"] = name
        if fmt != "{}":
            kw["key_format"] = fmt
        wl, wu = (lo, hi) if bounds else (z3.RealVal(0), z3.RealVal(1) if code == 1 else z3.RealVal("1e20"))
        tag = "%s(%s keys, %s name, format %r%s)" % (meth, "a sequence of" if seqk else "a number of", "given" if given else "automatic", fmt, ", bounds" if bounds else "")
        head = name if given else "x"

        def expect(t):
            if fmt == "":
                return head
            return lib.StrV([x for x in (head, fmt[:-2], kk(t)) if not isinstance(x, str) or x] if given else ["x" + fmt[:-2], kk(t)])
        bt = Batch(ctx, w, tag, nkey if seqk else K, wl, wu, code, expect if seqk else (lambda t: head) if fmt == "" else None)

        def go():
            bt.end = None
            r = w.call(meth, keys, **kw)
            w.count = bt.end
            return r, bt.end
        nret = 0
        for u, p, facts in paths(w, go):
            nm = "%s path %d: " % (tag, u)
            untouched(ctx, nm, w, p.cells, ["var"])
            if p.out == "raise":
                coherent(ctx, nm, w, facts, p.cells, "var")
                ctx.fact(nm + "raises QiskitOptimizationError", exc_name(p.val) == "QiskitOptimizationError", exc_name(p.val))
                ctx.valid(nm + "raises only for a non-positive count", facts, z3.BoolVal(False) if seqk else K < 1)
                untouched(ctx, nm, w, p.cells, [])
                continue
            r, end = p.val
            if end is None:
                raise Unsupported("no loop over the keys")
            nret += 1
            if not seqk:
                ctx.valid(nm + "a non-positive count is rejected", facts, K >= 1)
            ctx.valid(nm + "as many variables as asked for", facts, end == (nkey if seqk else K))
            ps, total = coherent(ctx, nm, w, facts, p.cells, "var")
            ctx.valid(nm + "that many variables more", facts, total == n + end)
            c = p.cells[r.id] if isinstance(r, Ref) else None
            if kind == "list":
                if not isinstance(c, ListV) or len(c.segs) != 1 or len(c.segs[0].binders) != 1:
                    raise Unsupported("result %r" % (c,))
                s = c.segs[0]
                b, el = s.binders[0], s.val
                ctx.valid(nm + "returns all of them", facts, z3.And(b.lo == 0, b.hi == end))
                ctx.valid(nm + "returns the new variables in order", facts + [b.range()], z3.And(lib.undg(s.guard), el.ident[1] == b.var) if isinstance(el, Rec) and el.ident[0] == "new" else z3.BoolVal(False))
            else:
                if not isinstance(c, DictV) or c.base is not None or len(c.pieces) != 1 or len(c.pieces[0].binders) != 1:
                    raise Unsupported("result %r" % (c,))
                q = c.pieces[0]
                b, el = q.binders[0], q.val
                ctx.valid(nm + "returns all of them", facts, z3.And(b.lo == 0, b.hi == end))
                ok = isinstance(el, Rec) and el.ident[0] == "new"
                ctx.valid(nm + "returns the new variables by their names", facts + [b.range()],
                          z3.And(lib.undg(q.guard), el.ident[1] == b.var, as_name(eng, q.key) == bt.nn(b.var)) if ok else z3.BoolVal(False))
        ctx.fact(tag + ": some path returns", nret > 0)
        ctx.side(eng, prefix=meth + ": ")
    for bad in ("{{}}", "{}{}"):
        w = World()
        for u, p, facts in paths(w, lambda: w.call(meth, 2, key_format=bad)):
            nm = "%s(format %r) path %d: " % (meth, bad, u)
            ctx.fact(nm + "is rejected", p.out == "raise" and exc_name(p.val) == "QiskitOptimizationError")
            untouched(ctx, nm, w, p.cells, [])


def senses(ctx):
    """ConstraintSense.convert, for every string: str.upper is CPython's (an uninterpreted function here)."""
    eng = lib.OPAQUE_NAMES = Engine()
    up = z3.Function("str_upper", Name, Name)
    s = z3.Const("sense_arg", Name)
    conv = eng.getattr(eng.resolve(PR + "constraint.ConstraintSense"), "convert")
    G = {0: ["L", "LE", "<=", "<"], 1: ["G", "GE", ">=", ">"], 2: ["E", "EQ", "=", "=="]}
    hit = {c: z3.Or(*[up(s) == litname(x) for x in xs]) for c, xs in G.items()}
    nret = 0
    for t, p in enumerate(eng.explore(lambda: eng.call(conv, [s]))):
        nm = "convert path %d: " % t
        facts = eng.facts + p.pc
        if p.out == "raise":
            ctx.fact(nm + "raises QiskitOptimizationError", exc_name(p.val) == "QiskitOptimizationError")
            ctx.valid(nm + "raises only for an unknown sense", facts, z3.Not(z3.Or(*hit.values())))
            continue
        nret += 1
        v = lib.num(lib.enum_term(p.val))
        ctx.valid(nm + "the sense named by the string", facts, z3.And(*[h == (v == c) for c, h in hit.items()]))
    ctx.fact("convert: some path returns", nret > 0)
    q = SymEnum("ConstraintSense", z3.Int("sense"))
    for t, p in enumerate(eng.explore(lambda: eng.call(conv, [q]))):
        ctx.valid("convert(sense) path %d: a sense is kept" % t, eng.facts + p.pc, lib.num(lib.enum_term(p.val)) == z3.Int("sense") if p.out != "raise" else z3.BoolVal(False))

def build(ctx):
    ctx.assume(*BASIC)
    ctx.contract("QuadraticProgram.remove_linear_constraint", lambda c: removal(c, False), par=True)
    ctx.contract("QuadraticProgram.remove_quadratic_constraint", lambda c: removal(c, True), par=True)
    ctx.contract("QuadraticProgram.linear_constraint", lambda c: adding(c, False), par=True)
    ctx.contract("QuadraticProgram.quadratic_constraint", lambda c: adding(c, True), par=True)
    ctx.contract("QuadraticProgram.get_variable / get_linear_constraint / get_quadratic_constraint / get_num_*", lookup, par=True)
    ctx.contract("QuadraticProgram.get_num_*_vars", counts, par=True)
    ctx.contract("QuadraticProgram.clear / minimize / maximize", resetting, par=True)
    for meth, code in (("continuous_var", 0), ("binary_var", 1), ("integer_var", 2)):
        ctx.contract("QuadraticProgram.%s" % meth, lambda c, m=meth, k=code: single(c, m, k), par=True)
        for kind in ("list", "dict"):
            ctx.contract("QuadraticProgram.%s_%s" % (meth, kind), lambda c, m=meth, k=code, d=kind: batch(c, m + "_" + d, k, d), par=True)
    ctx.contract("ConstraintSense.convert", senses, par=True)
