"""C17: set and number applications."""
from .apps import *


def seqs(eng):
    """Input data: values, weights, numbers, subsets of any length."""
    F = z3.Function
    n, m = z3.Int("items"), z3.Int("universe")
    eng.facts += [n >= 0, m >= 0]
    d = {"n": n, "m": m, "limit": z3.Real("limit"), "val": F("value", I, R), "wgt": F("weight", I, R), "num": F("number", I, R),
         "size": F("subset_size", I, I), "el": F("subset_item", I, I, I), "un": F("element", I, I), "mem": F("contains", I, I, B)}
    i = z3.Int("qi")
    eng.facts.append(z3.ForAll([i], d["size"](i) >= 0, patterns=[d["size"](i)]))

    def sub_iter(e, a, k):
        x = a[0].attrs["ix"]
        b = Binder(freshi(), z3.IntVal(0), d["size"](x))
        return SeqV([Seg([b], TRUE, d["el"](x, b.var))])

    def sub_contains(e, a, k):
        t = lib.num(a[1])
        if t.sort() != I:
            raise Unsupported("membership of %r" % (a[1],))
        return d["mem"](a[0].attrs["ix"], t)

    def unique(e, a, k):
        c = e.cell(a[0]) if isinstance(a[0], Ref) else None
        segs = [s for s in c.segs if not z3.is_false(z3.simplify(s.guard))] if isinstance(c, ListV) and c.base is None else []
        if len(a) != 1 or k or len(segs) != 1 or len(segs[0].binders) != 2:
            raise Unsupported("np.unique of %r" % (c,))
        s = segs[0]
        x, y = s.binders
        hyp = list(e.pc)
        e.obls.append(("the elements are collected from every subset", hyp, z3.And(x.lo == 0, x.hi == n)))
        hyp += [x.range(), y.range()]
        e.obls.append(("every item of a subset is an element", hyp, z3.And(y.lo == 0, y.hi == d["size"](x.var), s.guard, s.val == d["el"](x.var, y.var))))
        return Rec("vec", {"f": d["un"], "len": m})

    R_ = eng.rec_handlers
    R_["subset", "__iter__"], R_["subset", "__contains__"] = sub_iter, sub_contains
    R_["subset", "__len__"] = lambda e, a, k: d["size"](a[0].attrs["ix"])
    eng.natives["numpy.unique"] = NativeV("unique", unique)
    L = lambda f: Rec("vec", {"f": f, "len": n, "list": True})
    d["values"], d["weights"], d["numbers"] = L(d["val"]), L(d["wgt"]), L(d["num"])
    d["subsets"] = L(lambda t: Rec("subset", {"ix": t}, (t,)))
    return d


MAKE = {"Knapsack": ("knapsack.Knapsack", lambda d: [d["values"], d["weights"], d["limit"]]),
        "ExactCover": ("exact_cover.ExactCover", lambda d: [d["subsets"]]),
        "SetPacking": ("set_packing.SetPacking", lambda d: [d["subsets"]]),
        "NumberPartition": ("number_partition.NumberPartition", lambda d: [d["numbers"]])}


def total(d, x, f=None, g=None):
    b = Binder(freshi(), z3.IntVal(0), d["n"])
    return mk_sum([b], g(b.var) if g else TRUE, x(b.var) * f(b.var) if f is not None else x(b.var))


def covers(sense):
    return lambda d, x: [("elements", [d["m"]], lambda e: TRUE,
                          lambda e: ("sum", total(d, x, None, lambda i: d["mem"](i, d["un"](e))) - 1, sense))]


def sides(d, x):
    """Difference of the totals of the two sides (x = 0 and x = 1)."""
    return [("equal sums", [], lambda: TRUE, lambda: ("sum", total(d, lambda i: 1 - x(i), d["num"]) - total(d, x, d["num"]), "=="))]


def program(name, sense, obj, cons, mode=None):
    def fn(ctx):
        eng = setup_app()
        d = seqs(eng)

        def go():
            mod, args = MAKE[name]
            app = eng.call(eng.resolve(APP + mod), args(d))
            if mode:
                d["limit"] = z3.Real("limit2")
                eng.setattr(app, "max_weight", d["limit"])
            return eng.call(eng.getattr(app, "to_quadratic_program"), [])
        paths = eng.explore(go)
        ctx.vac["paths"] += len(paths)
        for k, p in enumerate(paths):
            nm = "%s path %d: " % (name, k)
            facts = eng.facts + p.pc
            if p.out == "raise":
                ctx.fact(nm + "does not raise", False, str(p.val))
                continue
            m = imported(ctx, nm, p)
            v = m and binary_vars(ctx, nm, facts, m, [d["n"]])
            if not v:
                continue
            x = lambda i: pt(v(i))
            objective(ctx, nm, facts + BITS, m, sense, obj(d, x) if obj else None)
            family(ctx, nm, facts, m["cons"].segs, cons(d, x))
        ctx.fact("%s has a path" % name, bool(paths))
        ctx.side(eng, prefix="%s: " % name)
        return eng
    return fn


def interpretation(name, two, entry):
    def fn(ctx):
        for form, _ in result_forms(None, 0):
            eng = setup_app()
            d = seqs(eng)
            f = z3.Function("xv", I, R)
            i = z3.Int("qi")
            eng.facts.append(z3.ForAll([i], z3.Or(f(i) == 0, f(i) == 1), patterns=[f(i)]))
            x = dict(result_forms(f, d["n"]))[form]

            def go():
                mod, args = MAKE[name]
                app = eng.call(eng.resolve(APP + mod), args(d))
                return eng.call(eng.getattr(app, "interpret"), [x])
            paths = eng.explore(go)
            ctx.fact("%s.interpret[%s] has a path" % (name, form), bool(paths))
            for k, p in enumerate(paths):
                nm = "%s.interpret[%s] path %d: " % (name, form, k)
                facts = eng.facts + p.pc
                if p.out == "raise":
                    ctx.fact(nm + "does not raise", False, str(p.val))
                    continue
                if two:
                    c = p.cells[p.val.id] if isinstance(p.val, Ref) else None
                    if not ctx.fact(nm + "two lists", isinstance(c, ListV) and c.concrete() and len(c.segs) == 2, str(c)[:200]):
                        continue
                    for side in (0, 1):
                        one_list(ctx, nm + "side %d: " % side, facts, p.cells, c.segs[side].val, d["n"], lambda b: f(b) == side, lambda b: entry(d, b))
                else:
                    one_list(ctx, nm, facts, p.cells, p.val, d["n"], lambda b: f(b) == 1, lambda b: entry(d, b))
            ctx.side(eng, prefix="%s.interpret[%s]: " % (name, form))
        return eng
    return fn


def build(ctx):
    ctx.assume(*BASIC)
    ctx.assume("docplex: Model.sum, arithmetic and comparison of expressions mean what they say; from_docplex imports the model faithfully (C11)",
               "np.unique lists each element of its argument once", "items of subsets are numbers; 'in' of a subset is membership",
               "values given to interpret are 0 or 1")
    ctx.contract("Knapsack.to_quadratic_program", program("Knapsack", -1, lambda d, x: total(d, x, d["val"]),
                 lambda d, x: [("limit", [], lambda: TRUE, lambda: ("sum", total(d, x, d["wgt"]) - d["limit"], "<="))]))
    ctx.contract("Knapsack.to_quadratic_program[limit set later]", program("Knapsack", -1, lambda d, x: total(d, x, d["val"]),
                 lambda d, x: [("limit", [], lambda: TRUE, lambda: ("sum", total(d, x, d["wgt"]) - d["limit"], "<="))], True))
    ctx.contract("ExactCover.to_quadratic_program", program("ExactCover", 1, lambda d, x: total(d, x), covers("==")))
    ctx.contract("SetPacking.to_quadratic_program", program("SetPacking", -1, lambda d, x: total(d, x), covers("<=")))
    ctx.contract("NumberPartition.to_quadratic_program", program("NumberPartition", 1, None, sides))
    idx, sub, num = (lambda d, b: b), (lambda d, b: Rec("subset", {"ix": b}, (b,))), (lambda d, b: d["num"](b))
    ctx.contract("Knapsack.interpret", interpretation("Knapsack", False, idx))
    ctx.contract("ExactCover.interpret", interpretation("ExactCover", False, sub))
    ctx.contract("SetPacking.interpret", interpretation("SetPacking", False, sub))
    ctx.contract("NumberPartition.interpret", interpretation("NumberPartition", True, num))
