"""C02: coefficients read back are the coefficients that were set (the real expression classes)."""
from .c01 import *


def keys(i, quad, j=None):
    """Ways of naming a position."""
    n = lambda k: V(k, 0)
    if not quad:
        return [("index", i), ("name", n(i))]
    return [("(index, index)", (i, j)), ("(name, index)", (n(i), j)), ("(index, name)", (i, n(j))), ("(name, name)", (n(i), n(j)))]


def build_expr(eng, src, quad):
    m, f = make_quad(eng, src) if quad else make_lin(eng, src)
    cls = eng.raw_class(QUAD if quad else LIN)
    # coefficient of the unordered pair {i, j} / of i
    co = (lambda i, j: z3.If(i <= j, f(i, j), f(j, i))) if quad else f
    return (lambda: eng.call(cls, [src.ref, m])), co, m


def ranged(n, *vs):
    return [z3.And(v >= 0, v < n) for v in vs]


def reading(quad):
    def run(ctx):
        engs = []
        for k in range(4 if quad else 2):
            eng, src = engine()
            make, co, m = build_expr(eng, src, quad)
            i, j = freshi(), freshi()
            eng.facts += ranged(src.n, i, j)
            label, key = keys(i, quad, j)[k]
            nm = "%s[%s]: " % ("QuadraticExpression" if quad else "LinearExpression", label)

            def go():
                o = make()
                before = dict(eng.cells)
                r = eng.call(eng.getattr(o, "__getitem__"), [key])
                return lib.undg(real(r)), all(eng.cells[c] is before[c] for c in before)
            for t, p in enumerate(eng.explore(go)):
                facts = eng.facts + p.pc
                if p.out == "raise":
                    ctx.valid(nm + "does not raise (path %d)" % t, facts, z3.BoolVal(False))
                    continue
                ctx.eq(nm + "reads the coefficient (path %d)" % t, facts, p.val[0], co(i, j) if quad else co(i))
                ctx.fact(nm + "reading changes nothing (path %d)" % t, p.val[1])
            ctx.side(eng, prefix=nm)
            engs.append(eng)
        return engs
    return run


def writing(quad):
    def run(ctx):
        engs = []
        for k in range(4 if quad else 2):
            eng, src = engine()
            make, co, m = build_expr(eng, src, quad)
            snap = eng.cells[m.id]
            i, j, a, b = (freshi() for _ in range(4))
            eng.facts += ranged(src.n, i, j, a, b)
            v = z3.Real("newval")
            label, key = keys(i, quad, j)[k]
            nm = "%s[%s] = value: " % ("QuadraticExpression" if quad else "LinearExpression", label)

            def go():
                o = make()
                eng.call(eng.getattr(o, "__setitem__"), [key, v])
                return o
            for t, p in enumerate(eng.explore(go)):
                facts = eng.facts + p.pc
                if p.out == "raise":
                    ctx.valid(nm + "does not raise (path %d)" % t, facts, z3.BoolVal(False))
                    continue
                eng.cells, save = dict(p.cells), eng.pc
                eng.pc = list(p.pc)
                sh, f, _ = sparse.mat(eng, eng.getattr(p.val, "coefficients"))
                eng.pc = save
                if quad:
                    hit = z3.Or(z3.And(a == i, b == j), z3.And(a == j, b == i))
                    ctx.eq(nm + "changes exactly this coefficient (path %d)" % t, facts + [a <= b], f(a, b), z3.If(hit, v, co(a, b)))
                    ctx.eq(nm + "the matrix stays upper triangular (path %d)" % t, facts + [a > b], f(a, b), ZERO)
                else:
                    ctx.eq(nm + "changes exactly this coefficient (path %d)" % t, facts, f(iv(0), a), z3.If(a == i, v, co(a)))
                ctx.fact(nm + "the matrix the expression was built from is left as it was (path %d)" % t, p.cells[m.id] is snap)
            ctx.side(eng, prefix=nm)
            engs.append(eng)
        return engs
    return run


def exporting(quad):
    cls = "QuadraticExpression" if quad else "LinearExpression"

    def run(ctx):
        engs = []
        forms = [(sym, nm) for sym in ((False, True) if quad else (False,)) for nm in (None, False, True)]
        for sym, use in forms:
            eng, src = engine()
            make, co, m = build_expr(eng, src, quad)
            i, j = freshi(), freshi()
            rng = ranged(src.n, i, j)
            kw = {}
            if quad:
                kw["symmetric"] = sym
            if use is not None:
                kw["use_name"] = use
            nm = "%s.%s(%s): " % (cls, "to_array" if use is None else "to_dict", ", ".join("%s=%s" % x for x in sorted(kw.items())))

            def go():
                o = make()
                before = dict(eng.cells)
                r = eng.call(eng.getattr(o, "to_array" if use is None else "to_dict"), [], kw)
                return o, r, all(eng.cells[c] is before[c] for c in before)
            for t, p in enumerate(eng.explore(go)):
                facts = eng.facts + p.pc
                if p.out == "raise":
                    ctx.valid(nm + "does not raise (path %d)" % t, facts, z3.BoolVal(False))
                    continue
                o, r, same = p.val
                eng.cells = dict(p.cells)
                ctx.fact(nm + "exporting changes nothing", same)
                if quad:
                    want = (lambda a, b: z3.If(a == b, co(a, b), co(a, b) / 2)) if sym else (lambda a, b: z3.If(a <= b, co(a, b), ZERO))
                if use is None:
                    sh, f, kind = sparse.mat(eng, r)
                    ctx.fact(nm + "a dense array with %d axes" % (2 if quad else 1), len(sh) == (2 if quad else 1) and kind == "arr")
                    ctx.valid(nm + "shape", facts, z3.And(*[x == src.n for x in sh]))
                    if quad:
                        ctx.eq(nm + "entries", facts + rng, f(i, j), want(i, j))
                    else:
                        ctx.eq(nm + "entries", facts + rng, f(i), co(i))
                else:
                    c = eng.cell(r) if isinstance(r, Ref) else None
                    if not isinstance(c, DictV) or c.kind not in ("dict", "defaultdict") or c.base is not None:
                        raise Unsupported("exported dictionary %r" % (c,))
                    name = (lambda x: V(x, 0)) if use else (lambda x: x)
                    key = (name(i), name(j)) if quad else name(i)
                    ctx.eq(nm + "values", facts + rng, lib.undg(lib.dsum(c, key)), want(i, j) if quad else co(i))
                    for q, pc in enumerate(c.pieces):
                        hyp = facts + [b.range() for b in pc.binders] + [pc.guard]
                        ks = pc.key if quad else (pc.key,)
                        if use:
                            ok = z3.And(*[z3.And(Name.is_V(x), Name.v_arg_ok(x)) if hasattr(Name, "v_arg_ok") else z3.Or(*[x == V(b.var, 0) for b in pc.binders]) for x in ks])
                        else:
                            ok = z3.And(*[z3.And(x >= 0, x < src.n) for x in ks])
                        ctx.valid(nm + "keys are %s (%d)" % ("names of variables" if use else "indices", q), hyp, ok)
            ctx.side(eng, prefix=nm)
            engs.append(eng)
        return engs
    return run


def round_trip(quad):
    """An expression built from any of its own exports has the same coefficients."""
    cls = "QuadraticExpression" if quad else "LinearExpression"

    def run(ctx):
        engs = []
        forms = [(sym, nm) for sym in ((False, True) if quad else (False,)) for nm in (None, False, True, "matrix") if not (sym and nm == "matrix")]
        for sym, use in forms:
            eng, src = engine()
            make, co, m = build_expr(eng, src, quad)
            i, j = freshi(), freshi()
            kw = {"symmetric": sym} if quad else {}
            if isinstance(use, bool):
                kw["use_name"] = use
            nm = "%s rebuilt from %s(%s): " % (cls, "coefficients" if use == "matrix" else "to_array" if use is None else "to_dict", ", ".join("%s=%s" % x for x in sorted(kw.items())))

            def go():
                o = make()
                r = eng.getattr(o, "coefficients") if use == "matrix" else eng.call(eng.getattr(o, "to_array" if use is None else "to_dict"), [], kw)
                return eng.call(eng.raw_class(QUAD if quad else LIN), [src.ref, r])
            for t, p in enumerate(eng.explore(go)):
                facts = eng.facts + p.pc
                if p.out == "raise":
                    ctx.valid(nm + "does not raise (path %d)" % t, facts, z3.BoolVal(False))
                    continue
                eng.cells = dict(p.cells)
                sh, f, _ = sparse.mat(eng, eng.getattr(p.val, "coefficients"))
                ctx.valid(nm + "shape", facts, z3.And(sh[-1] == src.n, sh[0] == (src.n if quad else 1)))
                rng = ranged(src.n, i, j)
                if quad:
                    ctx.eq(nm + "coefficients", facts + rng, f(i, j), z3.If(i <= j, co(i, j), ZERO))
                else:
                    ctx.eq(nm + "coefficients", facts + rng, f(iv(0), i), co(i))
            ctx.side(eng, prefix=nm)
            engs.append(eng)
        return engs
    return run


def parts(which):
    """Objectives and constraints hand back what they were given, at construction and through their setters."""
    def run(ctx):
        eng, src = engine()
        n = src.n
        ml, l = make_lin(eng, src)
        mq, q = make_quad(eng, src)
        ml2, l2 = make_lin(eng, src, "l2")
        mq2, q2 = make_quad(eng, src, "q2")
        C = lambda nm: eng.raw_class(PR + nm)
        S = {nm: SymEnum(nm, z3.Int("sense_" + nm)) for nm in ("ConstraintSense", "ObjSense")}
        S2 = {nm: SymEnum(nm, z3.Int("sense2_" + nm)) for nm in ("ConstraintSense", "ObjSense")}
        r, r2 = z3.Reals("rhs0 rhs1")
        if which == "QuadraticObjective":
            make = lambda: eng.call(C("quadratic_objective.QuadraticObjective"), [src.ref, r, ml, mq, S["ObjSense"]])
            sc = {"constant": (r, r2), "sense": (S["ObjSense"], S2["ObjSense"])}
        elif which == "LinearConstraint":
            make = lambda: eng.call(C("linear_constraint.LinearConstraint"), [src.ref, Name.LN(iv(0)), ml, S["ConstraintSense"], r])
            sc = {"name": (Name.LN(iv(0)), None), "rhs": (r, r2), "sense": (S["ConstraintSense"], S2["ConstraintSense"])}
        else:
            make = lambda: eng.call(C("quadratic_constraint.QuadraticConstraint"), [src.ref, Name.QN(iv(0)), ml, mq, S["ConstraintSense"], r])
            sc = {"name": (Name.QN(iv(0)), None), "rhs": (r, r2), "sense": (S["ConstraintSense"], S2["ConstraintSense"])}
        ex = {"linear": (ml2, l2, l, False)}
        if which != "LinearConstraint":
            ex["quadratic"] = (mq2, q2, q, True)

        def term(v):
            return v.term if isinstance(v, SymEnum) else v
        for changed in [None] + [x for x in sc if sc[x][1] is not None] + list(ex):
            def go():
                o = make()
                if changed:
                    eng.setattr(o, changed, sc[changed][1] if changed in sc else ex[changed][0])
                return o
            nm = "%s%s: " % (which, " after setting " + changed if changed else "")
            for t, p in enumerate(eng.explore(go)):
                facts = eng.facts + p.pc
                if p.out == "raise":
                    ctx.valid(nm + "does not raise (path %d)" % t, facts, z3.BoolVal(False))
                    continue
                eng.cells = dict(p.cells)
                for x, (v0, v1) in sc.items():
                    got = eng.getattr(p.val, x)
                    if not (isinstance(got, SymEnum) or isz(got)):
                        raise Unsupported("%s is %r" % (x, got))
                    ctx.valid(nm + x, facts, term(got) == term(v1 if x == changed else v0))
                i, j = freshi(), freshi()
                for x, (m1, f1, f0, quad) in ex.items():
                    f1 = f1 if x == changed else f0
                    o = eng.getattr(p.val, x)
                    sh, f, _ = sparse.mat(eng, eng.getattr(o, "coefficients"))
                    if quad:
                        ctx.eq(nm + x, facts + ranged(n, i, j), f(i, j), z3.If(i <= j, f1(i, j), ZERO))
                    else:
                        ctx.eq(nm + x, facts + ranged(n, i), f(iv(0), i), f1(i))
                ctx.fact(nm + "belongs to the same program", eng.getattr(p.val, "quadratic_program") == src.ref)
        ctx.side(eng, prefix=which + ": ")
        return eng
    return run


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("numpy / scipy.sparse: a matrix is a total function from positions to reals; dok_matrix, tril, triu, +, -, /, @, transpose, toarray, todok and item access have their documented meaning",
               "items() of a sparse matrix yields some set of positions that contains every non-zero entry",
               "QuadraticProgram.variables_index / get_num_vars / variables: their contracts (property C03)",
               "keys of coefficient dictionaries are indices 0..n-1 or names of variables")
    ctx.contract("LinearExpression (construction)", build_from(LIN, lin_inputs, False), par=True)
    ctx.contract("QuadraticExpression (construction)", build_from(QUAD, quad_inputs, True), par=True)
    for q in (False, True):
        c = "QuadraticExpression" if q else "LinearExpression"
        ctx.contract(c + ".__getitem__", reading(q), par=True)
        ctx.contract(c + ".__setitem__", writing(q), par=True)
        ctx.contract(c + " exports", exporting(q), par=True)
        ctx.contract(c + " round trips", round_trip(q), par=True)
    for t in THINGS[2:]:
        ctx.contract(t + " parts", parts(t), par=True)
