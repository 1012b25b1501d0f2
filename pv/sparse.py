"""numpy arrays and scipy.sparse matrices as total functions from positions to reals.

A matrix is a DictV of kind "dok" (sparse) or "arr" (dense); every operation defines the entries of its result.  items() of a sparse matrix
yields the stored entries: some set of positions that contains all non-zero ones (whether explicit zeros are stored is left open)."""
import ast
import z3
from . import lib, norm
from .terms import *
from .values import *


def iv(k):
    return z3.IntVal(k)


SCOPE = []    # binders whose range is known


def under(t):
    """t simplified under the ranges of the binders in scope."""
    m = []
    for b in SCOPE:
        m += [(z3.simplify(b.var >= b.lo), z3.BoolVal(True)), (z3.simplify(b.lo <= b.var), z3.BoolVal(True)), (z3.simplify(b.hi <= b.var), z3.BoolVal(False))]
    return z3.simplify(z3.substitute(z3.simplify(t), *m)) if m else t


def entry(c, key):
    return under(lib.undg(lib.dsum(c, key)))


def scoped(bs, f):
    SCOPE.extend(bs)
    try:
        return under(f())
    finally:
        del SCOPE[len(SCOPE) - len(bs):]


def mk(eng, shape, f, kind="dok"):
    """New matrix with entries f(i, j, ...)."""
    shape = tuple(lib.num(x) for x in shape)
    bs = [Binder(freshi(), iv(0), n) for n in shape]
    keep = [b for b in bs if not z3.simplify(b.hi).eq(iv(1))]
    key = tuple(b.var if b in keep else iv(0) for b in bs)
    return eng.new(DictV([Piece(keep, TRUE, key, scoped(keep, lambda: lib.undg(real(f(*key)))), "set")], kind, shape=shape))


def mat(eng, v):
    """(shape, entry function, kind) of a matrix-like value."""
    if isinstance(v, Rec) and v.kind == "vec":
        from .aprog import vec_entry
        return (lib.num(v.attrs["len"]),), (lambda i: real(vec_entry(v, i))), "arr"
    if isinstance(v, Rec) and v.kind == "arrrow":
        sh, f, kind = mat(eng, v.attrs["ref"])
        pre = v.attrs["key"]
        return sh[len(pre):], (lambda *k: f(*(tuple(pre) + k))), "arr"
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, DictV) and c.kind in ("arr", "dok"):
            if c.base is not None:
                raise Unsupported("matrix operation in a loop that modifies it")
            return c.shape, (lambda *k: entry(c, k)), c.kind
        if isinstance(c, ListV):
            return from_list(eng, c)
    raise Unsupported("matrix %r" % (v,))


def from_list(eng, c):
    if c.base is not None or c.unordered:
        raise Unsupported("matrix from this list")
    if c.concrete():
        rows = [lib.materialise(eng, s.val) for s in c.segs]
        if rows and all(lib.is_num(r) for r in rows):
            def f(i):
                t = z3.RealVal(0)
                for k, r in enumerate(rows):
                    t = z3.If(i == k, real(r), t)
                return z3.simplify(t)
            return (iv(len(rows)),), f, "arr"
        if len(rows) == 1:
            sh, g, _ = mat(eng, rows[0])
            return (iv(1),) + tuple(sh), (lambda i, *k: g(*k)), "arr"
        raise Unsupported("matrix from a list of %d rows" % len(rows))
    if len(c.segs) == 1 and len(c.segs[0].binders) == 1 and z3.is_true(c.segs[0].guard) and z3.simplify(c.segs[0].binders[0].lo).eq(iv(0)):
        s = c.segs[0]
        b = s.binders[0]
        if lib.is_num(s.val):
            return (b.hi,), (lambda i: subst(real(lib.undg(real(s.val))), [(b.var, i)])), "arr"
        # nested list
        row = lib.materialise(eng, s.val)
        sh, g, _ = mat(eng, row)
        if any(occurs(b.var, lib.num(x)) for x in sh):
            raise Unsupported("ragged list")
        j = [freshi() for _ in sh]
        t = g(*j)
        return (b.hi,) + tuple(sh), (lambda i, *k: subst(t, [(b.var, i)] + list(zip(j, k)))), "arr"
    raise Unsupported("matrix from this list")


def same_dim(eng, m, n, what):
    ok = z3.simplify(lib.num(m) == lib.num(n))
    if not eng.entailed(ok) and not eng.branch(ok):
        eng.raise_("ValueError", what)


def dok_matrix(eng, a, k):
    v = a[0] if a else k.get("arg1")
    if isinstance(v, tuple) and len(v) == 2 and all(lib.is_num(x) for x in v):
        return eng.new(DictV([], "dok", shape=tuple(lib.num(x) for x in v)))
    sh, f, _ = mat(eng, v)
    if len(sh) == 1:
        return mk(eng, (iv(1), sh[0]), lambda i, j: f(j))
    return of_pieces(eng, pieces(eng, v), "dok", sh)


def pieces(eng, v):
    """The entries as a list of pieces."""
    if isinstance(v, Ref) and isinstance(eng.cell(v), DictV):
        c = eng.cell(v)
        if c.base is not None:
            raise Unsupported("matrix operation in a loop that modifies it")
        return list(c.pieces)
    sh, f, kind = mat(eng, v)
    return list(eng.cell(mk(eng, sh, f, kind)).pieces)


def of_pieces(eng, ps, kind, shape, mode="add"):
    out = []
    for p in ps:
        g = z3.simplify(p.guard)
        if z3.is_false(g):
            continue
        if not z3.is_true(g) and norm.check(eng.facts + eng.pc + [b.range() for b in p.binders] + [g], 1000)[0] == z3.unsat:
            continue
        out.append(Piece(p.binders, g, p.key, lib.undg(real(p.val)), mode))
    return eng.new(DictV(out, kind, shape=tuple(lib.num(x) for x in shape)))


def tri(keep):
    def fn(eng, a, k):
        sh, f, _ = mat(eng, a[0])
        d = a[1] if len(a) > 1 else k.get("k", 0)
        return of_pieces(eng, [Piece(p.binders, band(p.guard, keep(p.key[0], p.key[1], lib.num(d))), p.key, p.val) for p in pieces(eng, a[0])], "dok", sh)
    return fn


def transpose(eng, a, k):
    sh, f, kind = mat(eng, a[0])
    if len(sh) == 1:
        return a[0]
    return of_pieces(eng, [Piece(p.binders, p.guard, (p.key[1], p.key[0]), p.val) for p in pieces(eng, a[0])], kind, (sh[1], sh[0]))


def matmul(eng, a, b):
    sa, f, ka = mat(eng, a)
    sb, g, kb = mat(eng, b)
    same_dim(eng, sa[-1], sb[0], "dimension mismatch")
    b_ = Binder(freshi(), iv(0), sa[-1])
    if z3.simplify(b_.hi).eq(iv(1)):
        tot = lambda h: h(iv(0))
    else:
        tot = lambda h: mk_sum([b_], TRUE, scoped([b_], lambda: real(h(b_.var))))
    kind = "dok" if ka == kb == "dok" else "arr"
    if len(sa) == 1 and len(sb) == 1:
        return tot(lambda t: f(t) * g(t))
    if len(sa) == 1:
        return mk(eng, (sb[1],), lambda j: tot(lambda t: f(t) * g(t, j)), kind)
    if len(sb) == 1:
        return mk(eng, (sa[0],), lambda i: tot(lambda t: f(i, t) * g(t)), kind)
    return mk(eng, (sa[0], sb[1]), lambda i, j: tot(lambda t: f(i, t) * g(t, j)), kind)


def elementwise(eng, op, a, b):
    """Sum and difference of equal shapes, multiples."""
    if lib.is_num(a) or lib.is_num(b):
        if lib.is_num(a):
            if isinstance(op, ast.Sub):
                sh, f, kind = mat(eng, b)
                if kind == "dok":
                    raise Unsupported("array operation")
                return mk(eng, sh, lambda *k: real(lib.num(a)) - f(*k), kind)
            if not isinstance(op, (ast.Mult, ast.Add)):
                raise Unsupported("array operation")
            a, b = b, a
        sh, f, kind = mat(eng, a)
        if not isinstance(op, (ast.Mult, ast.Div)):
            if kind == "dok" or not isinstance(op, (ast.Add, ast.Sub)):
                raise Unsupported("array operation")
            return mk(eng, sh, lambda *k: real(lib.binop(eng, op, f(*k), b)), kind)
        return of_pieces(eng, [Piece(p.binders, p.guard, p.key, real(lib.binop(eng, op, real(p.val), b))) for p in pieces(eng, a)], kind, sh)
    sa, f, ka = mat(eng, a)
    sb, g, kb = mat(eng, b)
    if len(sa) != len(sb):
        raise Unsupported("broadcasting")
    if not isinstance(op, (ast.Add, ast.Sub)) and not (isinstance(op, ast.Mult) and ka == kb == "arr"):
        raise Unsupported("array operation")
    for x, y in zip(sa, sb):
        same_dim(eng, x, y, "inconsistent shapes")
    kind = "dok" if ka == kb == "dok" else "arr"
    if isinstance(op, ast.Mult):
        return mk(eng, sa, lambda *k: f(*k) * g(*k), kind)
    neg = isinstance(op, ast.Sub)
    return of_pieces(eng, pieces(eng, a) + [Piece(p.binders, p.guard, p.key, -real(p.val) if neg else p.val) for p in pieces(eng, b)], kind, sa)


def arr_op(eng, op, a, b):
    if isinstance(op, ast.MatMult):
        return matmul(eng, a, b)
    return elementwise(eng, op, a, b)


_stored = {}


def items(eng, a, k):
    c = eng.cell(a[0])
    sh, f, kind = mat(eng, a[0])
    if id(c) not in _stored:
        st = z3.Function("stored!%d" % len(_stored), *([I] * len(sh) + [B]))
        v = [z3.Int("qs%d" % t) for t in range(len(sh))]
        x = f(*v)
        eng.facts.append(z3.ForAll(v, z3.Or(st(*v), x == 0), patterns=[st(*v)]))
        _stored[id(c)] = (c, st)
    st = _stored[id(c)][1]
    bs = [Binder(freshi(), iv(0), n) for n in sh]
    keep = [b for b in bs if not z3.simplify(b.hi).eq(iv(1))]
    key = tuple(b.var if b in keep else iv(0) for b in bs)
    return SeqV([Seg(keep, st(*key), (key, scoped(keep, lambda: f(*key))))], unordered=True)


def toarray(eng, a, k):
    return of_pieces(eng, pieces(eng, a[0]), "arr", mat(eng, a[0])[0])


def todok(eng, a, k):
    return of_pieces(eng, pieces(eng, a[0]), "dok", mat(eng, a[0])[0])


def install(eng):
    N = eng.natives
    N["scipy.sparse.dok_matrix"] = NType("scipy.sparse.dok_matrix", dok_matrix)
    for nm in ("scipy.sparse.tril",):
        N[nm] = NativeV("scipy.sparse.tril", tri(lambda i, j, d: j - i <= d))
    N["scipy.sparse.triu"] = NativeV("scipy.sparse.triu", tri(lambda i, j, d: j - i >= d))
    M = eng.arr_methods
    for kind in ("dok", "arr"):
        M[kind, "transpose"] = transpose
        M[kind, "dot"] = lambda e, a, k: matmul(e, a[0], a[1])
        M[kind, "copy"] = lambda e, a, k: e.new(e.cell(a[0]))
        M[kind, "tolist"] = lambda e, a, k: lib._uns("tolist")
    for nm in ("todok", "tocsr", "tocsc", "tocoo", "tolil"):
        M["dok", nm] = todok
    def flat(e, a, k):
        sh, f, _ = mat(e, a[0])
        if len(sh) == 2 and z3.simplify(sh[0]).eq(iv(1)):
            return mk(e, (sh[1],), lambda j: f(iv(0), j), "arr")
        if len(sh) == 1:
            return mk(e, sh, f, "arr")
        raise Unsupported("flatten")
    M["arr", "flatten"] = M["arr", "ravel"] = flat
    N["numpy.dot"] = NativeV("numpy.dot", lambda e, a, k: matmul(e, a[0], a[1]))
    def outer(e, a, k):
        (m,), f, _ = mat(e, a[0])
        (n,), g, _ = mat(e, a[1])
        return mk(e, (m, n), lambda i, j: f(i) * g(j), "arr")
    N["numpy.outer"] = NativeV("numpy.outer", outer)

    def total(e, a, k):
        v = a[0]
        if k or len(a) != 1:
            raise Unsupported("sum along an axis")
        if not (isinstance(v, Ref) and isinstance(e.cell(v), DictV) or isinstance(v, Rec)):
            return lib.seq_sum(e, v)
        sh, f, _ = mat(e, v)
        bs = [Binder(freshi(), iv(0), n) for n in sh]
        return mk_sum(bs, TRUE, scoped(bs, lambda: real(f(*[b.var for b in bs]))))
    N["numpy.sum"] = NativeV("numpy.sum", total)
    M["arr", "sum"] = total
    M["dok", "toarray"] = M["dok", "todense"] = toarray
    M["dok", "items"] = items
    M["dok", "keys"] = lambda e, a, k: keys_of(items(e, a, k), 0)
    M["dok", "values"] = lambda e, a, k: keys_of(items(e, a, k), 1)
    eng.array_op = arr_op


def keys_of(s, j):
    return SeqV([Seg(x.binders, x.guard, x.val[j]) for x in s.segs], unordered=True)
