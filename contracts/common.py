"""Helpers shared by the contracts."""
import z3
from pv.interp import Engine
from pv import aprog, lib, norm
from pv.aprog import *
from pv.terms import *
from pv.values import *

PRE = "qiskit_optimization."


def setup():
    eng = Engine()
    aprog.install(eng)
    eng.rec_handlers["vec", "__getitem__"] = vec_getitem
    eng.rec_handlers["vec", "__iter__"] = vec_iter
    eng.rec_handlers["vec", "__len__"] = lambda e, a, k: a[0].attrs["len"]
    old = eng.rec_isinstance
    eng.rec_isinstance = lambda v, t: lib.type_name(t) in ("ndarray", "list") if v.kind == "vec" else old(v, t)
    return eng


def vec(f, n):
    """A vector argument of length n with entries f(i)."""
    return Rec("vec", {"f": f, "len": n})


def vec_getitem(eng, a, k):
    v, i = a
    if isinstance(i, Rec) and i.kind == "pos":
        return pt(i.attrs["of"])
    i = lib.num(i)
    if i.sort() != I:
        raise Unsupported("vector index")
    n = lib.num(v.attrs["len"])
    if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() < 0:
        i = z3.simplify(n + i)
    ok = z3.And(i >= 0, i < n)
    if not eng.entailed(ok):
        if not eng.branch(ok):
            raise Unsupported("vector index out of range")
    return aprog.vec_entry(v, i)


def vec_iter(eng, a, k):
    b = Binder(freshi(), iv(0), lib.num(a[0].attrs["len"]))
    return SeqV([Seg([b], TRUE, aprog.vec_entry(a[0], b.var))])


def vec_at(eng, v, i, cells=None):
    """(length, entry i) of a returned vector."""
    if isinstance(v, Rec) and v.kind == "vec":
        return lib.num(v.attrs["len"]), real(aprog.vec_entry(v, i))
    if isinstance(v, Ref):
        c = (cells or eng.cells)[v.id]
        if isinstance(c, DictV) and c.kind == "arr":
            return lib.num(c.shape[0]), lib.undg(lib.dsum(c, (i,)))
        if isinstance(c, ListV) and len(c.segs) == 1 and len(c.segs[0].binders) == 1 and z3.is_true(c.segs[0].guard):
            b = c.segs[0].binders[0]
            if z3.is_int_value(b.lo) and b.lo.as_long() == 0:
                return b.hi, real(lib.undg(vsub(c.segs[0].val, [(b.var, i)])))
    raise Unsupported("returned vector %r" % (v,))


def same_variables(ctx, nm, facts, cells, r, src, extra=False):
    segs = cells[cells[r.id].fields["vars"].id].segs
    ok = len(segs) >= 1 and len(segs[0].binders) == 1
    if not ctx.fact(nm + "variables are the original ones (shape)", ok and (extra or len(segs) == 1), str(segs)[:300]):
        return
    s = segs[0]
    b = s.binders[0]
    at = s.val.attrs
    hyp = facts + [b.range()]
    ctx.valid(nm + "variables: same range, nothing filtered", hyp, z3.And(b.lo == 0, b.hi == src.n, s.guard))
    ctx.valid(nm + "variables: same name, type and bounds in order", hyp,
              z3.And(at["name"] == V(b.var, src.prog), real(at["lowerbound"]) == src.lb(b.var), real(at["upperbound"]) == src.ub(b.var),
                     lib.enum_term(at["vartype"]) == src.vt(b.var)))


def names_distinct(ctx, nm, eng, facts, cells, r):
    save = eng.cells
    eng.cells = cells
    for k, (hyp, goal) in enumerate(aprog.distinct_names(eng, r)):
        ctx.valid("%svariable names are distinct (%d)" % (nm, k), facts + hyp, goal)
    eng.cells = save


BASIC = ["floating point treated as real arithmetic, numpy scalars as Python numbers",
         "dictionaries passed as coefficients do not name the same variable twice",
         "deepcopy returns an equal, independent object"]
