"""C04: feasibility reports (the real methods of QuadraticProgram on a symbolic program)."""
from .common import *

QPC = PRE + "problems.quadratic_program.QuadraticProgram"


def isclose(eng, a, k):
    """math.isclose as documented: |a - b| <= max(rel_tol * max(|a|, |b|), abs_tol)."""
    x, y = lib.undg(real(a[0])), lib.undg(real(a[1]))
    rel, ab = real(k.get("rel_tol", 1e-9)), real(k.get("abs_tol", 0))
    return close(x, y, rel, ab)


def close(x, y, rel=real(1e-9), ab=z3.RealVal(0)):
    d = z3.If(x >= y, x - y, y - x)
    absx, absy = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
    return z3.Or(x == y, d <= rel * absx, d <= rel * absy, d <= ab)


def point_inputs(eng, n):
    f = z3.Function("xv", I, R)
    b = Binder(freshi(), iv(0), n)
    yield "list", eng.new(ListV([Seg([b], TRUE, f(b.var))]))
    b = Binder(freshi(), iv(0), n)
    yield "array", eng.new(DictV([Piece([b], TRUE, (b.var,), f(b.var))], "arr", shape=(n,)))


def run(ctx):
    engs = []
    for k in range(2):
        eng = setup()
        eng.natives["math.isclose"] = NativeV("math.isclose", isclose)
        src = Src(eng, integral_bounds=False)
        for nm, f in (("_linear_constraints", "lcons"), ("_quadratic_constraints", "qcons"), ("_variables", "vars")):
            eng.obj_handlers["AProg", nm] = (lambda f: (lambda e, o: aprog.fields(e, o)[f],))(f)
        for h in ("get_feasibility_info", "is_feasible"):
            eng.obj_handlers.pop(("AProg", h), None)
        ln = z3.Int("len_x")
        eng.facts.append(ln >= 0)
        label, x = list(point_inputs(eng, ln))[k]
        snap = eng.cells[x.id]
        xf = z3.Function("xv", I, R)
        tag = "get_feasibility_info of a %s " % label

        def go():
            return eng.call(eng.getattr(src.ref, "get_feasibility_info"), [x]), eng.call(eng.getattr(src.ref, "is_feasible"), [x])
        i = freshi("i")
        vbad = z3.Or(xf(i) < src.lb(i), src.ub(i) < xf(i))
        vx = vec(lambda i: xf(i), src.n)

        def at(c, quad):
            s = eng.cells[aprog.fields(eng, src.ref)["qcons" if quad else "lcons"].id].segs[0]
            return lib.undg(real(eng.call(eng.getattr(vsub(s.val, [(s.binders[0].var, c)]), "evaluate"), [vx])))
        w = freshi("w")
        for quad in (False, True):
            ctx.eq(tag + "lemma: left-hand side (%s)" % ("quadratic" if quad else "linear"), eng.facts, at(w, quad), (src.lhs_q if quad else src.lhs_l)(w, lambda i: xf(i)))

        def cbad(c, quad):
            s, r = (src.ds(c), src.drhs(c)) if quad else (src.cs(c), src.crhs(c))
            L = at(c, quad)
            return z3.Or(z3.And(s == LE, L > r), z3.And(s == GE, L < r), z3.And(s == EQ, z3.Not(close(L, r))))
        n = 0
        for t, p in enumerate(eng.explore(go)):
            nm = tag + "path %d: " % t
            facts = eng.facts + p.pc
            if p.out == "raise":
                ctx.valid(nm + "raises only for a wrong length", facts, ln != src.n)
                ctx.fact(nm + "wrong length: QiskitOptimizationError", exc_name(p.val) == "QiskitOptimizationError")
                continue
            n += 1
            ctx.valid(nm + "a point of the wrong length is rejected", facts, ln == src.n)
            (info, feas) = p.val
            if not (isinstance(info, tuple) and len(info) == 3):
                raise Unsupported("feasibility info %r" % (info,))
            eng.cells = dict(p.cells)
            ctx.fact(nm + "the program and the point are left as they were", src.untouched(p.cells) and p.cells[x.id] is snap)
            vs, cs = (eng.cell(r) if isinstance(r, Ref) else None for r in info[1:])
            if not (isinstance(vs, ListV) and isinstance(cs, ListV)) or vs.base is not None or cs.base is not None:
                raise Unsupported("feasibility lists")
            # variables: i is listed exactly if its value lies outside its bounds; in order, once
            check_list(ctx, nm + "violated variables", eng, facts, vs, [("var", src.n, lambda j: Name_of_var(src, j), lambda j: z3.substitute(vbad, (i, j)))])
            check_list(ctx, nm + "violated constraints", eng, facts, cs, [("linear", src.m, lambda j: Name.LN(j), lambda j: cbad(j, False)), ("quadratic", src.q, lambda j: Name.QN(j), lambda j: cbad(j, True))])
            j = freshi("j")
            empty = []
            for lst in (vs, cs):
                for s in lst.segs:
                    empty.append((s.binders, s.guard))
            for what, v in (("feasible", info[0]), ("is_feasible", feas)):
                v = z3.BoolVal(v) if isinstance(v, bool) else v
                if not (isz(v) and v.sort() == B):
                    raise Unsupported("feasible is %r" % (v,))
                defs = exists_facts(band(v, *p.pc))
                for q, (bs, g) in enumerate(empty):
                    ctx.valid("%s%s implies that the lists are empty (%d)" % (nm, what, q), facts + defs + [v] + [b.range() for b in bs], z3.Not(lib.undg(g)))
                alle = [z3.ForAll([b.var for b in bs], z3.Implies(band(*[b.range() for b in bs]), z3.Not(lib.undg(g)))) for bs, g in empty]
                ctx.valid("%snot %s implies that some list is not empty" % (nm, what), facts + defs + alle + [z3.Not(v)], z3.BoolVal(False))
            n += 1
        ctx.fact(tag + "some path reports", n > 0)
        ctx.side(eng, prefix=tag)
        engs.append(eng)
    return engs


def exists_facts(t):
    """Definitions of the emptiness tests in t."""
    out = []
    for a in sum_apps(t, EXISTS):
        bs, g = open_def(a, EXISTS)
        out.append(a == z3.Exists([b.var for b in bs], band(*([b.range() for b in bs] + [lib.undg(g)]))))
    return out


def exists_defs(ts):
    """The same for all arguments, and for the emptiness tests inside the definitions."""
    out, seen, todo = [], set(), list(ts)
    while todo:
        for a in sum_apps(todo.pop(), EXISTS):
            if a.decl().name() in seen:
                continue
            seen.add(a.decl().name())
            vs = [z3.Const("ev%d" % k, x.sort()) for k, x in enumerate(a.children())]
            f = a.decl()(*vs)
            bs, g = open_def(f, EXISTS)
            body = f == z3.Exists([b.var for b in bs], band(*([b.range() for b in bs] + [lib.undg(g)])))
            out.append(z3.ForAll(vs, body, patterns=[f]) if vs else body)
            todo.append(lib.undg(g))
    return out


def exc_name(v):
    return getattr(v, "cls", None) if isinstance(getattr(v, "cls", None), str) else getattr(getattr(v, "cls", None), "name", getattr(v, "name", str(v)))


def Name_of_var(src, j):
    return V(j, src.prog)


def check_list(ctx, nm, eng, facts, lst, fams):
    """The list holds, for each family in turn, exactly the elements j (in order, once) with the family's condition."""
    if lst.unordered is True:
        raise Unsupported("order of the list")
    by = {f[0]: [] for f in fams}
    order = []
    for s in lst.segs:
        if len(s.binders) != 1 or not isinstance(s.val, Rec):
            raise Unsupported("listed %r" % (s,))
        b = s.binders[0]
        fam = "var" if s.val.kind == "var" else "linear" if s.val.kind == "con" and "quadratic" not in s.val.attrs else "quadratic"
        if fam not in by:
            raise Unsupported("listed %r" % (s,))
        by[fam].append(s)
        if fam not in order:
            order.append(fam)
    ctx.fact(nm + ": in program order", order == [f[0] for f in fams if f[0] in order])
    for label, hi, name, cond in fams:
        j = freshi("j")
        gs = []
        for s in by[label]:
            b = s.binders[0]
            sub = [(b.var, j)]
            ctx.valid("%s: listed is the element itself (%s)" % (nm, label), facts + [b.range(), s.guard], s.val.attrs["name"] == name(b.var))
            ctx.valid("%s: range (%s)" % (nm, label), facts, z3.And(b.lo == 0, b.hi == hi))
            gs.append(lib.undg(subst(s.guard, sub)))
        # no element twice
        for a in range(len(gs)):
            for c in range(a):
                ctx.valid("%s: not listed twice (%s %d %d)" % (nm, label, c, a), facts + [j >= 0, j < hi], z3.Not(z3.And(gs[a], gs[c])))
        goal_eq(ctx, "%s: exactly the violated ones (%s)" % (nm, label), facts + [j >= 0, j < hi], z3.Or(*gs) if gs else z3.BoolVal(False), cond(j))


def goal_eq(ctx, name, facts, a, b):
    """a == b where both contain the same sums in possibly different forms: sums are matched by their normal forms first."""
    P = norm.Prover(facts, 4000)
    m = []
    for x in sum_apps(a, SUMS):
        for y in sum_apps(b, SUMS):
            if not x.eq(y) and P.eq(x, y)[0]:
                m.append((x, y))
                break
    ctx.valid(name, facts, (z3.substitute(a, *m) if m else a) == b)


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("LinearConstraint.evaluate / QuadraticConstraint.evaluate: their contracts (property C01)", "math.isclose as documented (relative tolerance 1e-9)",
               "QuadraticProgram's lists of variables and constraints, get_variable, get_num_vars: contracts (property C03)")
    ctx.contract("QuadraticProgram.get_feasibility_info / is_feasible", run, par=True)
