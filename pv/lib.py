"""Operations on symbolic values and the assumed contracts of builtins and external libraries."""
import ast
import math
import re
from fractions import Fraction

import z3

from .terms import *
from . import terms as terms_mod
from .values import *
from . import norm

MISSING = object()
DGETS = {}     # name of a dict-read application -> {params, ref, content, key, base, defn}


# ------------------------------------------------------------------ small helpers
def skolem(eng, prefix, sort, extra=()):
    """Fresh value depending on the generic indices of the enclosing loops."""
    args = list(eng.binders) + list(extra)
    if not args:
        return fresh("k" + prefix, sort)
    f = z3.Function("k%s!%d" % (prefix, next(_cnt)), *([a.sort() for a in args] + [sort]))
    return f(*args)


import itertools as _it
_cnt = _it.count()


def is_zero(v):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return v == 0
    return isz(v) and v.sort() in (R, I) and (z3.is_rational_value(v) and v.as_fraction() == 0 or z3.is_int_value(v) and v.as_long() == 0)


def sort_as(v, sort):
    if sort == I:
        if isinstance(v, (int, bool)):
            return z3.IntVal(int(v))
        if isz(v) and v.sort() == I:
            return v
        raise Unsupported("integer expected: %r" % (v,))
    return real(v)


def num(v):
    """z3 term of a number (Int for int, Real for float)."""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v in (float("inf"), float("-inf")) or v != v:
            raise Unsupported("infinite constant in arithmetic")
        return real(v)
    if isz(v) and v.sort() == B:
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def conc(v):
    """Python value of a literal term."""
    if isz(v):
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


class Unknown(str):
    """Text whose content the executor does not know (messages)."""


UNKNOWN = Unknown("?")


def as_name(eng, v):
    if isz(v) and v.sort() == Name:
        return v
    if isinstance(v, str):
        return litname(v)
    if isinstance(v, StrV):
        if any(p is UNKNOWN for p in v.parts):
            raise Unsupported("text of unknown content used as a name")
        parts = [p for p in v.parts if isz(p) or p != ""]
        if len(parts) == 1:
            p = parts[0]
            return as_name(eng, p) if not (isz(p) and p.sort() == I) else Name.fmt(strtag("%d"), p, z3.IntVal(0))
        if isz(parts[0]) and parts[0].sort() == Name:
            rest = parts[1:]
            if all(isinstance(p, str) for p in rest):
                txt = "".join(rest)
                m = re.match(r"^(.*?[^0-9])(0|[1-9][0-9]*)$", txt, re.S)
                return Name.ext(parts[0], strtag(m.group(1) + "%d"), int(m.group(2))) if m else Name.ext(parts[0], strtag(txt), -1)
            ints = [p for p in rest if isz(p) and p.sort() == I]
            if OPAQUE_NAMES:
                return opaque_name(parts)
            if len(ints) == 1 and len(rest) == 2 and isinstance(rest[0], str) and not rest[0][-1:].isdigit():
                return Name.ext(parts[0], strtag(rest[0] + "%d"), ints[0])
            if any(isz(p) and p.sort() == Name for p in rest) and not OPAQUE_NAMES:
                raise Unsupported("name built from two names")
        ints = [p for p in parts if isz(p)]
        if all(p.sort() == I for p in ints) and len(ints) <= 2 and not OPAQUE_NAMES:
            tmpl, prev_int = "", False
            for p in parts:
                if isinstance(p, str):
                    if prev_int and p[:1].isdigit():
                        raise Unsupported("ambiguous name template")
                    tmpl += p
                    prev_int = False
                else:
                    if prev_int or tmpl[-1:].isdigit():
                        raise Unsupported("ambiguous name template")
                    tmpl += "%d"
                    prev_int = True
            a = ints + [z3.IntVal(0)] * (2 - len(ints))
            return Name.fmt(strtag(tmpl), a[0], a[1])
        if OPAQUE_NAMES:
            return opaque_name(parts)
    raise Unsupported("name %r" % (v,))


OPAQUE_NAMES = None     # the engine whose facts record what is known about opaque names


def opaque_name(parts):
    """A string of which only its ingredients are known: an uninterpreted function of them.  The one thing known about it: with a
    single number among the ingredients and everything else the same, different numbers give different strings."""
    args = [p for p in parts if isz(p)]
    f = z3.Function("str_" + "".join("%" if isz(p) else p for p in parts), *([x.sort() for x in args] + [Name]))
    ints = [k for k, x in enumerate(args) if x.sort() == I]
    if len(ints) == 1:
        vs = [z3.Const("sq%d" % k, x.sort()) for k, x in enumerate(args)]
        oth = [v for k, v in enumerate(vs) if k != ints[0]]
        g = z3.Function("num_" + f.name(), *([v.sort() for v in oth] + [Name, I]))
        ax = z3.ForAll(vs, g(*oth, f(*vs)) == vs[ints[0]], patterns=[f(*vs)])
        if not any(ax.eq(x) for x in OPAQUE_NAMES.facts):
            OPAQUE_NAMES.facts.append(ax)
    return f(*args)


def namelike(v):
    return isinstance(v, (str, StrV)) or isz(v) and v.sort() == Name


def materialise(eng, v):
    """Frozen container contents inside a value become cells again (read-only)."""
    if isinstance(v, (ListV, DictV)):
        r = eng.new(v)
        eng.frozen.add(r.id)
        return r
    if isinstance(v, ObjV):
        r = eng.new(v)
        eng.frozen.add(r.id)
        return r
    if isinstance(v, tuple):
        return tuple(materialise(eng, x) for x in v)
    if isinstance(v, Rec) and v.kind == "arrview":
        return dget(eng, v.attrs["ref"], eng.cell(v.attrs["ref"]), v.attrs["key"])
    return v


def freeze(eng, v, limit, cells):
    """Replace references to cells created after `limit` by their contents."""
    if isinstance(v, Rec) and v.kind in ("arrview", "arrrow"):
        raise Unsupported("stored array view")
    if isinstance(v, Ref):
        if v.id < limit:
            return v
        c = cells[v.id]
        return freeze(eng, c, limit, cells)
    if isinstance(v, ListV):
        return ListV([Seg(s.binders, s.guard, freeze(eng, s.val, limit, cells)) for s in v.segs], v.kind, v.base, v.unordered)
    if isinstance(v, DictV):
        return v.copy(pieces=[Piece(p.binders, p.guard, p.key, freeze(eng, p.val, limit, cells), p.mode) for p in v.pieces])
    if isinstance(v, ObjV):
        return ObjV(v.cls, {k: freeze(eng, x, limit, cells) for k, x in v.fields.items()})
    if isinstance(v, tuple):
        return tuple(freeze(eng, x, limit, cells) for x in v)
    if isinstance(v, Rec):
        return Rec(v.kind, {k: freeze(eng, x, limit, cells) for k, x in v.attrs.items()}, v.ident)
    if isinstance(v, FuncV) and v.frame is not None:
        if any(fr.id >= limit for fr in v.frame.frames):
            raise Unsupported("a function that closes over variables of one iteration is kept")
        return FuncV(v.node, v.frame, v.module, v.cls, [freeze(eng, x, limit, cells) for x in v.defaults],
                     {k: freeze(eng, x, limit, cells) for k, x in v.kwdefaults.items()}, v.qual)
    return v


def value_has(eng, v, c, cells, depth=0):
    from .loops import vfree_terms
    if depth > 6:
        return True
    if isinstance(v, Ref):
        return value_has(eng, cells[v.id], c, cells, depth + 1) if v.id in cells and False else False
    return any(occurs(c, t) for t in vfree_terms(v))


def vequal_syn(a, b):
    from .loops import _same
    if isinstance(a, EnumV) and isinstance(b, EnumV):
        return a == b
    return _same(a, b)


def veq_term(a, b):
    """Bool term for equality of two values, or None if not expressible."""
    if is_num(a) and is_num(b):
        return real(a) == real(b)
    if isz(a) and isz(b) and a.sort() == b.sort():
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        cs = [veq_term(x, y) for x, y in zip(a, b)]
        return None if any(c is None for c in cs) else band(*cs)
    if isinstance(a, Rec) and isinstance(b, Rec) and a.kind == b.kind and a.kind in VALUE_KINDS:
        return a.attrs["t"] == b.attrs["t"]
    return None


VALUE_KINDS = set()     # records that are wholly given by their attribute t


def merge(cvals, light=False):
    """One value equal to v under its condition; returns (value,) or None."""
    vs = [v for _, v in cvals]
    v0 = vs[0]
    if len(vs) == 1:
        return (v0,)
    if all(vequal_syn(v, v0) for v in vs):
        return (v0,)
    if all(isz(v) and v.sort() == Name for v in vs):
        return None if light else (ites(cvals),)
    if all(is_num(v) for v in vs):
        if all(num(v).sort() == I for v in vs):
            return (ites([(c, num(v)) for c, v in cvals]),)
        return (ites([(c, real(v)) for c, v in cvals]),)
    if all(isinstance(v, bool) or isz(v) and v.sort() == B for v in vs):
        return (ites([(c, z3.BoolVal(v) if isinstance(v, bool) else v) for c, v in cvals]),)
    if all(isinstance(v, (EnumV, SymEnum)) for v in vs) and len({v.cls for v in vs}) == 1:
        try:
            return (SymEnum(v0.cls, ites([(c, enum_term(v)) for c, v in cvals])),)
        except Unsupported:
            return None
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in vs):
        out = []
        for k in range(len(v0)):
            m = merge([(c, v[k]) for c, v in cvals], light)
            if m is None:
                return None
            out.append(m[0])
        return (tuple(out),)
    if all(isinstance(v, Rec) and v.kind == v0.kind and set(v.attrs) == set(v0.attrs) for v in vs) and v0.kind in ("var",):
        out = {}
        for k in v0.attrs:
            m = merge([(c, v.attrs[k]) for c, v in cvals], light)
            if m is None:
                return None
            out[k] = m[0]
        return (Rec(v0.kind, out, v0.ident),)
    return None


def ites(cts):
    t = cts[-1][1]
    for c, x in reversed(cts[:-1]):
        t = z3.If(c, x, t)
    return z3.simplify(t)


def enum_term(v):
    if isinstance(v, SymEnum):
        return v.term
    if isinstance(v, EnumV):
        if isinstance(v.value, int):
            return z3.IntVal(v.value)
    raise Unsupported("enum value %r" % (v,))


# ------------------------------------------------------------------ keys
FIRST = []   # first-writer functions of the repeated identical writes met (for stating goals)
INJ = {}     # injective naming functions: name -> inverse


def unify(a, b):
    """List of equations equivalent to a == b, or None if they never are."""
    if isinstance(a, StrV) or isinstance(b, StrV) or isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            return [] if a == b else None
        if namelike(a) and namelike(b):
            return unify(as_name(None, a), as_name(None, b))
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return None
        out = []
        for x, y in zip(a, b):
            e = unify(x, y)
            if e is None:
                return None
            out += e
        return out
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.ident is None or b.ident is None:
            raise Unsupported("identity of %r" % (a,))
        if a.kind != b.kind:
            return None
        return unify(a.ident, b.ident)
    if isz(a) and isz(b) and a.sort() == Name and b.sort() == Name:
        q = z3.simplify(a == b)
        if z3.is_false(q):
            return None
        if z3.is_true(q):
            return []
        for x, y in ((a, b), (b, a)):
            if z3.is_app(x) and x.num_args() == 1 and x.decl().name() in INJ:
                # x = f(i) with an injective f that has the inverse g:  f(i) = y  iff  i = g(y) and f(g(y)) = y
                if z3.is_app(y) and y.decl().eq(x.decl()):
                    return [x.arg(0) == y.arg(0)]
                g = INJ[x.decl().name()](y)
                return [x.arg(0) == g, x.decl()(g) == y]
        r = norm.unify_names(a, b)
        if r is None:
            return [a == b]
        out = []
        for x in r:
            if z3.is_false(x):
                return None
            if z3.is_true(x):
                continue
            if z3.is_eq(x) and x.arg(0).sort() == Name:
                s = unify(x.arg(0), x.arg(1))
                if s is None:
                    return None
                out += s
            else:
                out += list(x.children()) if z3.is_and(x) else [x]
        return out
    if is_num(a) and is_num(b):
        a, b = num(a), num(b)
        q = z3.simplify(a == b) if a.sort() == b.sort() else z3.simplify(real(a) == real(b))
        return None if z3.is_false(q) else ([] if z3.is_true(q) else [q])
    if isinstance(a, (EnumV, SymEnum)) and isinstance(b, (EnumV, SymEnum)):
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return [] if a == b else None
        q = z3.simplify(enum_term(a) == enum_term(b))
        return None if z3.is_false(q) else ([] if z3.is_true(q) else [q])
    if isinstance(a, Ref) and isinstance(b, Ref):
        return [] if a == b else None
    if type(a) is not type(b):
        return None
    if a is b or not isz(a) and a == b:
        return []
    if isz(a) and isz(b) and a.sort() == b.sort() and a.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
        q = z3.simplify(a == b)
        return [] if z3.is_true(q) else [q]
    raise Unsupported("comparison of %r and %r" % (a, b))


def solve(binders, eqs):
    """Eliminate binders through the equations: (substitution, conditions, remaining binders)."""
    eqs, m = list(eqs), []
    rem = list(binders)
    conds = []
    prog = True
    while prog and rem:
        prog = False
        for e in eqs:
            if not z3.is_eq(e):
                continue
            for b in rem:
                t = None
                for l, r in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    if l.eq(b.var) and not occurs(b.var, r):
                        t = r
                        break
                if t is None and e.arg(0).sort() == I:
                    t = norm.solve_lin(e, b.var)
                if t is not None:
                    s = [(b.var, t)]
                    rem = [x.sub(s) for x in rem if x is not b]
                    eqs = [z3.simplify(subst(x, s)) for x in eqs if x is not e]
                    conds = [subst(x, s) for x in conds] + [subst(b.lo, s) <= t, t < subst(b.hi, s)]
                    m = [(x, subst(y, s)) for x, y in m] + s
                    prog = True
                    break
            if prog:
                break
    return m, [c for c in (z3.simplify(c) for c in conds + eqs) if not z3.is_true(c)], rem


def match(piece, key):
    """None, or (binders left, condition, value) for the instances of the piece with this key."""
    nb, g, k, v = refresh(piece.binders, piece.guard, piece.key, piece.val)
    eqs = unify(k, key)
    if eqs is None:
        return None
    m, conds, rem = solve(nb, eqs)
    return rem, z3.simplify(band(subst(g, m), *conds)), vsub(v, m)


def present(d, key):
    """Bool term: key in d."""
    if d.base is not None:
        raise Unsupported("membership test on a container the loop modifies")
    cs = []
    for p in d.pieces:
        r = match(p, key)
        if r is None:
            continue
        rem, c, _ = r
        cs.append(exists_or(rem, c) if rem else c)
    return z3.simplify(bor(*cs))


def exists_or(rem, cond):
    """mk_exists, with an instance found by matching one of the equations in the condition as an alternative (the same truth value)."""
    e = mk_exists(rem, cond)
    bv = [b.var for b in rem]
    for q in (cond.children() if z3.is_and(cond) else [cond]):
        if not z3.is_eq(q):
            continue
        for l, r in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
            m = {}
            if any(occurs(v, r) for v in bv) or not _fo_match(l, r, bv, m) or len(m) != len(bv):
                continue
            m = [(v, m[v.get_id()]) for v in bv]
            w = z3.simplify(subst(band(*([b.range() for b in rem] + [cond])), m))
            return z3.simplify(bor(e, w))
    return e


def _fo_match(pat, t, bv, m):
    for v in bv:
        if pat.eq(v):
            if v.get_id() in m:
                return m[v.get_id()].eq(t)
            m[v.get_id()] = t
            return True
    if pat.eq(t):
        return True
    return z3.is_app(pat) and z3.is_app(t) and pat.num_args() > 0 and pat.decl().eq(t.decl()) and all(_fo_match(x, y, bv, m) for x, y in zip(pat.children(), t.children()))


def dsum(d, key):
    """Real term: sum of all values stored under key (0 if absent)."""
    t = z3.RealVal(0)
    for p in d.pieces:
        r = match(p, key)
        if r is None:
            continue
        rem, c, v = r
        if not is_num(v):
            raise Unsupported("numeric read of %r" % (v,))
        if rem:
            t = t + mk_sum(rem, c, real(v))
        elif z3.is_true(c):
            t = t + real(v)
        elif not z3.is_false(c):
            t = t + z3.If(c, real(v), z3.RealVal(0))
    return z3.simplify(t)


def key_terms(key):
    if isinstance(key, tuple):
        return [t for k in key for t in key_terms(k)]
    if isinstance(key, Rec):
        return key_terms(key.ident)
    if isinstance(key, StrV):
        return [p for p in key.parts if isz(p)]
    return [key] if isz(key) else []


def dget(eng, ref, d, key):
    """Numeric read with default 0: an application remembered so that an additive write can be recognised."""
    from .loops import vfree_terms
    if d.base is None and not any(p.binders for p in d.pieces) and all(not is_z(p.key) for p in d.pieces) and not is_z(key):
        return dsum(d, key)
    terms = key_terms(key)
    free = []
    for t in terms + ([] if d.base is not None else vfree_terms(d)):
        for c in free_consts(t):
            if is_index(c) and not any(c.eq(x) for x in free) and (any(occurs(c, k) for k in terms) or any(c.eq(b) for b in eng.binders)):
                free.append(c)
    nm = "DG_%d" % len(DGETS)
    f = z3.Function(nm, *([c.sort() for c in free] + [R])) if free else None
    app = f(*free) if f is not None else z3.Const(nm, R)
    DGETS[nm] = {"params": free, "ref": ref.id, "content": d, "key": key, "base": d.base,
                 "defn": None if d.base is not None else dsum(d, key)}
    return app


def is_z(k):
    return bool(key_terms(k))


def undg(t):
    """Replace dict-read applications by their definitions."""
    for _ in range(30):
        apps = sum_apps(t, DGETS)
        m = []
        for a in apps:
            e = DGETS[a.decl().name()]
            if e["defn"] is not None:
                m.append((a, subst(e["defn"], list(zip(e["params"], a.children())))))
        if not m:
            return t
        t = z3.substitute(t, *m)
    return t


terms_mod.POST = undg


def additive(eng, ref, d, key, v):
    """delta if v == (current value at key) + delta."""
    if not (isz(v) and v.sort() == R):
        return None
    for a in sum_apps(v, DGETS):
        e = DGETS[a.decl().name()]
        if e["ref"] != ref.id or e["content"] is not d:
            continue
        m = list(zip(e["params"], a.children()))
        if unify(vsub(e["key"], m), key) != []:
            continue
        rest = z3.simplify(z3.substitute(v, (a, z3.RealVal(0))))
        if any(a.eq(x) for x in sum_apps(rest, DGETS)):
            continue
        t = z3.simplify(v - a - rest)
        if z3.is_rational_value(t) and t.as_fraction() == 0 or norm.check([v - a != rest], 1500)[0] == z3.unsat:
            return rest
    return None


def _mutable(eng, ref):
    if ref.id in eng.frozen:
        raise Unsupported("modification of a container stored by a loop")


def norm_key(eng, d, key):
    if isinstance(key, bool):
        return int(key)
    if d.kind in ("arr", "dok"):
        if not isinstance(key, tuple):
            key = (key,)
        out = []
        for k, n in zip(key, d.shape or (None,) * len(key)):
            if not is_num(k):
                raise Unsupported("array index %r" % (k,))
            k = num(k)
            if k.sort() != I:
                raise Unsupported("non-integer index")
            out.append(k)
        if d.shape and len(out) != len(d.shape):
            raise Unsupported("partial indexing")
        return tuple(out)
    if isinstance(key, StrV):
        return as_name(eng, key)
    if isinstance(key, tuple):
        return tuple(norm_key(eng, d, k) for k in key)
    return key


def setitem(eng, o, key, v):
    if isinstance(o, Rec):
        h = eng.rec_handlers.get((o.kind, "__setitem__"))
        if h:
            return h(eng, [o, key, v], {})
    h = obj_op(eng, o, "__setitem__")
    if h:
        return h(eng, [o, key, v], {})
    if not isinstance(o, Ref):
        raise Unsupported("item assignment to %r" % (o,))
    c = eng.cell(o)
    if isinstance(c, ObjV):
        return eng.call(eng.getattr(o, "__setitem__"), [key, v])
    _mutable(eng, o)
    if isinstance(c, ListV):
        k = conc(key)
        if c.concrete() and isinstance(k, int) and -len(c.segs) <= k < len(c.segs):
            segs = list(c.segs)
            segs[k] = elem(v)
            eng.put(o, ListV(segs, c.kind))
            return
        raise Unsupported("list item assignment")
    if not isinstance(c, DictV):
        raise Unsupported("item assignment")
    if isinstance(key, slice):
        raise Unsupported("slice assignment")
    key = norm_key(eng, c, key)
    if c.kind == "arr" and (isinstance(v, bool) or isz(v) and v.sort() == B):
        v = real(v)
    if c.kind in ("arr", "dok") and c.shape:
        for k, n in zip(key, c.shape):
            ok = band(k >= 0, k < n)
            if not eng.entailed(ok):
                if not eng.branch(ok):
                    raise Unsupported("array index out of range")
    delta = additive(eng, o, c, key, v)
    if delta is not None:
        eng.put(o, c.copy(pieces=c.pieces + [Piece([], TRUE, key, delta, "add")]))
        return
    if isz(v):
        v = undg(v)
    kept = []
    for p in c.pieces:
        eqs = unify(p.key, key)
        if eqs is None:
            kept.append(p)
            continue
        hit = band(*eqs)
        if z3.is_true(hit):
            continue
        if not p.binders and eng.entailed(band(p.guard, hit)):
            continue
        kept.append(Piece(p.binders, z3.simplify(band(p.guard, z3.Not(hit))), p.key, p.val, p.mode))
    if c.kind in ("arr", "dok"):
        if not is_num(v):
            raise Unsupported("array element %r" % (v,))
    eng.put(o, c.copy(pieces=kept + [Piece([], TRUE, key, v, "set")]))


def dict_lookup(eng, o, c, key, default=MISSING):
    """Value at key; forks on which piece matches."""
    key = norm_key(eng, c, key)
    if c.kind in ("arr", "dok"):
        return dget(eng, o, c, key)
    if c.base is not None:
        if default is not MISSING and is_zero(default):
            return dget(eng, o, c, key)
        if c.kind == "defaultdict" and c.default == 0:
            return dget(eng, o, c, key)
        raise Unsupported("read of a container the loop modifies")
    if all(is_num(p.val) for p in c.pieces) and (default is not MISSING and is_zero(default) or c.kind == "defaultdict" and c.default == 0):
        return dget(eng, o, c, key)
    for p in c.pieces:
        r = match(p, key)
        if r is None:
            continue
        rem, cond, v = r
        if rem:
            if eng.branch(exists_or(rem, cond)):
                m = [(b.var, skolem(eng, "key", I)) for b in rem]
                eng.aux_fact(subst(band(*([b.range() for b in rem] + [cond])), m))
                v = vsub(v, m)
            else:
                continue
        elif not eng.branch(cond):
            continue
        if p.mode == "add":
            if not eng.entailed(present(c, key)):
                raise Unsupported("read of an additive entry")
            return dget(eng, o, c, key)
        return materialise(eng, v)
    if default is not MISSING:
        return default
    if c.kind == "defaultdict":
        v = eng.call(c.default, []) if not isinstance(c.default, (int, float)) else c.default
        setitem(eng, o, key, v)
        return v
    eng.raise_("KeyError")


def seg_count(s):
    if not s.binders:
        return z3.If(s.guard, z3.IntVal(1), z3.IntVal(0)) if not z3.is_true(s.guard) else z3.IntVal(1)
    if len(s.binders) == 1 and z3.is_true(s.guard):
        b = s.binders[0]
        if z3.is_int_value(b.lo) and b.lo.as_long() == 0:
            return b.hi      # sizes are non-negative
        return z3.If(b.hi > b.lo, b.hi - b.lo, z3.IntVal(0))
    return None


def list_at(eng, c, k):
    """Element at position k (0 <= k < len), forking on the segment."""
    if c.base is not None or c.unordered:
        raise Unsupported("indexing an unordered list")
    kc = conc(k)
    if isinstance(kc, int) and c.concrete():
        if not -len(c.segs) <= kc < len(c.segs):
            eng.raise_("IndexError")
        return c.segs[kc].val
    k = num(k)
    if k.sort() != I:
        raise Unsupported("list index")
    off = z3.IntVal(0)
    if isinstance(kc, int) and kc < 0:
        k = z3.simplify(length(eng, c) + kc)
    for s in c.segs:
        n = seg_count(s)
        if n is None:
            raise Unsupported("position in a filtered list")
        inside = band(k >= off, k < off + n)
        if eng.branch(z3.simplify(inside)):
            if not s.binders:
                return materialise(eng, s.val)
            b = s.binders[0]
            return materialise(eng, vsub(s.val, [(b.var, z3.simplify(b.lo + k - off))]))
        off = z3.simplify(off + n)
    neg_ok = band(k < 0, k >= -off)
    if eng.branch(z3.simplify(neg_ok)):
        return list_at(eng, c, z3.simplify(k + off))
    eng.raise_("IndexError")


def tie_count(eng, binders, guard, cnt):
    """cnt = number of index points of the guard: a whole number, zero exactly when there is none."""
    if cnt.num_args() and cnt.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        vs = [z3.Const("cq%d" % k, x.sort()) for k, x in enumerate(cnt.children())]
        f = cnt.decl()(*vs)
        fact = z3.ForAll(vs, f >= 0, patterns=[f])
        if not any(fact.eq(x) for x in eng.facts):
            eng.facts.append(fact)
    eng.aux_fact(cnt >= 0)
    # a count is a whole number, and it is zero exactly when nothing is counted
    ex = mk_exists(binders, guard)
    eng.aux_fact(z3.And(ex == (cnt >= 1), z3.Not(ex) == (cnt == 0), z3.IsInt(cnt)))


def length(eng, c):
    if isinstance(c, ListV):
        if c.base is not None:
            raise Unsupported("length of a list the loop modifies")
        if c.kind == "set" and not (len(c.segs) <= 1 or c.concrete()):
            raise Unsupported("length of a set")
        t = z3.IntVal(0)
        for s in c.segs:
            n = seg_count(s)
            if n is None:
                cnt = mk_sum(s.binders, s.guard, z3.RealVal(1))
                tie_count(eng, s.binders, s.guard, cnt)
                n = z3.ToInt(cnt)
            t = t + n
        t = z3.simplify(t)
        return t.as_long() if z3.is_int_value(t) else t
    if isinstance(c, DictV):
        if c.kind == "arr":
            return conc(c.shape[0])
        if c.base is None and all(p.mode == "set" for p in c.pieces):
            return length(eng, ListV([Seg(p.binders, p.guard, None) for p in c.pieces]))
        if c.base is None:
            n = skolem(eng, "len", I)
            e = bor(*[mk_exists(p.binders, p.guard) for p in c.pieces])
            eng.aux_fact(z3.And(n >= 0, (n > 0) == e))
            return n
    raise Unsupported("len of %r" % (c,))


def obj_op(eng, o, nm):
    c = eng.cell(o) if isinstance(o, Ref) else None
    return eng.obj_ops.get((c.cls, nm)) if isinstance(c, ObjV) and isinstance(c.cls, str) else None


def getitem(eng, o, key):
    h = obj_op(eng, o, "__getitem__")
    if h:
        return h(eng, [o, key], {})
    if isinstance(o, tuple):
        if isinstance(key, slice):
            return o[slice(conc(key.start), conc(key.stop), conc(key.step))]
        k = conc(key)
        if isinstance(k, int):
            if not -len(o) <= k < len(o):
                eng.raise_("IndexError")
            return o[k]
        return list_at(eng, ListV([elem(x) for x in o]), key)
    if isinstance(o, Rec) and o.kind == "arrrow":
        r = o.attrs["ref"]
        return getitem(eng, r, o.attrs["key"] + (tuple(key) if isinstance(key, tuple) else (key,)))
    if isinstance(o, Rec):
        h = eng.rec_handlers.get((o.kind, "__getitem__"))
        if h:
            return h(eng, [o, key], {})
        raise Unsupported("subscript of %s" % o.kind)
    if isinstance(o, str):
        if isinstance(key, int):
            return o[key]
    if isinstance(o, Ref):
        c = eng.cell(o)
        if isinstance(c, ObjV):
            return eng.call(eng.getattr(o, "__getitem__"), [key])
        if isinstance(c, ListV):
            if isinstance(key, slice):
                if c.concrete():
                    vals = c.segs[slice(conc(key.start), conc(key.stop), conc(key.step))]
                    return eng.new(ListV(vals, c.kind))
                st = conc(key.step)
                if key.start is None and key.stop is None and st in (None, 1, -1) and c.base is None and not c.unordered:
                    r = c.segs if st != -1 else reversed_segs(c.segs)
                    if r is not None:
                        return eng.new(ListV(r, c.kind))
                raise Unsupported("slice of a symbolic list")
            return list_at(eng, c, key)
        if isinstance(c, DictV):
            if c.kind == "arr" and len(c.shape) == 2 and is_num(key) and getattr(eng, "array_op", None):
                i = num(key)
                if not eng.entailed(band(i >= 0, i < c.shape[0])):
                    raise Unsupported("row index")
                return Rec("arrrow", {"ref": o, "key": (i,)})
            return dict_lookup(eng, o, c, key)
    if isinstance(o, ClassV) and o.enum and isinstance(key, str):
        return eng.getattr(o, key)
    if isinstance(o, (NModule, NType)):
        return o      # typing subscripts
    raise Unsupported("subscript of %r" % (o,))


def delitem(eng, o, key):
    c = eng.cell(o)
    _mutable(eng, o)
    if isinstance(c, DictV) and c.base is None:
        key = norm_key(eng, c, key)
        kept = []
        for p in c.pieces:
            eqs = unify(p.key, key)
            if eqs is None:
                kept.append(p)
            elif not z3.is_true(band(*eqs)):
                kept.append(Piece(p.binders, z3.simplify(band(p.guard, z3.Not(band(*eqs)))), p.key, p.val, p.mode))
        eng.put(o, c.copy(pieces=kept))
        return
    if isinstance(c, ListV) and c.base is None and not isinstance(key, slice) and is_num(key) and c.kind == "list" and not c.unordered:
        if len(c.segs) == 1 and len(c.segs[0].binders) == 1 and z3.is_true(c.segs[0].guard):
            s = c.segs[0]
            b = s.binders[0]
            i = num(key)
            n = num(length(eng, c))
            if i.sort() != I:
                raise Unsupported("del with a non-integer index")
            if eng.branch(i < 0):
                i = i + n
            if not eng.branch(z3.And(i >= 0, i < n)):
                eng.raise_("IndexError")
            b1, g1, v1 = refresh(s.binders, s.guard, s.val)
            b2, g2, v2 = refresh(s.binders, s.guard, s.val)
            b1 = [Binder(b1[0].var, b.lo, z3.simplify(b.lo + i))]
            b2 = [Binder(b2[0].var, z3.simplify(b.lo + i + 1), b.hi)]
            eng.put(o, ListV([Seg(b1, g1, v1), Seg(b2, g2, v2)], c.kind, c.base, c.unordered))
            return
    raise Unsupported("del")


def append(eng, o, v):
    c = eng.cell(o)
    _mutable(eng, o)
    if not isinstance(c, ListV):
        raise Unsupported("append to %r" % (c,))
    if isz(v):
        v = undg(v)
    eng.put(o, ListV(c.segs + [elem(v)], c.kind, c.base, c.unordered))


# ------------------------------------------------------------------ operators
def inplace(eng, op, cur, v):
    if isinstance(op, ast.Add) and isinstance(cur, Ref) and isinstance(eng.cell(cur), ListV):
        list_extend(eng, [cur, v], {})
        return cur
    if isinstance(cur, Ref) and isinstance(eng.cell(cur), ObjV):
        c = eng.cell(cur)
        nm = {ast.Add: "__iadd__", ast.Sub: "__isub__", ast.Mult: "__imul__"}.get(type(op))
        h = eng.obj_ops.get((c.cls if isinstance(c.cls, str) else c.cls.name, nm))
        if h:
            return h(eng, [cur, v], {})
    if isinstance(cur, Ref) and isinstance(eng.cell(cur), DictV) and eng.cell(cur).kind == "arr" and not (isinstance(op, ast.MatMult)):
        r = binop(eng, op, cur, v)
        _mutable(eng, cur)
        eng.put(cur, eng.cell(r))      # numpy changes the array in place
        return cur
    return binop(eng, op, cur, v)


def binop(eng, op, a, b):
    if isinstance(a, (EnumV,)) or isinstance(b, EnumV):
        raise Unsupported("arithmetic on enums")
    for x, y, nm in ((a, b, ""), (b, a, "r")):
        if isinstance(x, Rec):
            h = eng.rec_handlers.get((x.kind, "__%s%s__" % (nm, OPN.get(type(op), "?"))))
            if h:
                return h(eng, [x, y], {})
        if isinstance(x, Ref) and isinstance(eng.cell(x), ObjV):
            c = eng.cell(x)
            h = eng.obj_ops.get((c.cls if isinstance(c.cls, str) else c.cls.name, "__%s%s__" % (nm, OPN.get(type(op), "?"))))
            if h:
                return h(eng, [x, y], {})
    if getattr(eng, "array_op", None) and any(isinstance(x, Rec) and x.kind in ("vec", "arrrow") for x in (a, b)):
        return eng.array_op(eng, op, a, b)
    if isinstance(a, DExpr) or isinstance(b, DExpr):
        return dexpr_op(eng, op, a, b)
    if namelike(a) or namelike(b):
        if isinstance(op, ast.Add) and namelike(a) and namelike(b):
            return concat_str(eng, [a, b])
        if isinstance(op, ast.Mod):
            h = eng.rec_handlers.get(("str", "__mod__"))
            r = h(eng, [a, b], {}) if h else None
            if r is not None:
                return r
            return StrV([UNKNOWN])
        if isinstance(op, ast.Mult) and isinstance(a, str) and isinstance(b, int):
            return a * b
        raise Unsupported("string operation")
    if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
        return a + b
    la = eng.cell(a) if isinstance(a, Ref) else None
    lb = eng.cell(b) if isinstance(b, Ref) else None
    if isinstance(la, ListV) and isinstance(lb, ListV) and isinstance(op, ast.Add):
        return eng.new(ListV(la.segs + lb.segs, la.kind, None, less_ordered(la.unordered, lb.unordered)))
    if isinstance(la, ListV) and isinstance(op, ast.Mult) or isinstance(lb, ListV) and isinstance(op, ast.Mult):
        if la is None:
            la, a, b = lb, b, a
        if len(la.segs) == 1 and la.segs[0].plain():
            n = num(b)
            if n.sort() == I:
                if z3.is_int_value(n):
                    return eng.new(ListV(la.segs * n.as_long()))
                v = freshi()
                return eng.new(ListV([Seg([Binder(v, z3.IntVal(0), n)], TRUE, la.segs[0].val)]))
        raise Unsupported("list repetition")
    if isinstance(la, DictV) or isinstance(lb, DictV):
        return arr_op(eng, op, a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                    ast.Pow: lambda: a ** b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                    ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b}[type(op)]()
        except KeyError:
            raise Unsupported("operator")
        except ZeroDivisionError:
            eng.raise_("ZeroDivisionError")
    if (is_num(a) or isinstance(a, bool) or isz(a) and a.sort() == B) and (is_num(b) or isinstance(b, bool) or isz(b) and b.sort() == B):
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.BitXor)):
            raise Unsupported("bit operation")
        x, y = num(a), num(b)
        ints = x.sort() == I and y.sort() == I
        if not ints:
            x, y = real(x), real(y)
        if isinstance(op, ast.Add):
            return z3.simplify(x + y)
        if isinstance(op, ast.Sub):
            return z3.simplify(x - y)
        if isinstance(op, ast.Mult):
            return z3.simplify(x * y)
        if isinstance(op, ast.Div):
            if not eng.entailed(real(y) != 0):
                if eng.branch(real(y) == 0):
                    eng.raise_("ZeroDivisionError")
            return z3.simplify(real(x) / real(y))
        if isinstance(op, ast.Pow):
            e = conc(b)
            if isinstance(e, float) and e == int(e):
                e = int(e)
            if isinstance(e, int) and 0 <= e <= 4:
                t = z3.IntVal(1) if ints else z3.RealVal(1)
                for _ in range(e):
                    t = t * x
                return z3.simplify(t)
            if conc(a) == 2 and y.sort() == I:
                return eng.pow2(y)
            if conc(a) == 2 and y.sort() == R:
                return z3.Function("two_to_the_power", R, R)(y)
            if conc(a) in (-1, -1.0) and y.sort() == I:
                raise Unsupported("power of -1")
            raise Unsupported("power")
        if isinstance(op, (ast.Mod, ast.FloorDiv)) and ints:
            y = z3.simplify(y)
            if not (y.as_long() > 0 if z3.is_int_value(y) else eng.entailed(y > 0)):
                raise Unsupported("division by a value not known to be positive")
            mod = isinstance(op, ast.Mod)
            if not z3.is_int_value(y):
                if eng.entailed(z3.And(x >= 0, x < y)):
                    return z3.simplify(x) if mod else z3.IntVal(0)
                if eng.entailed(z3.And(x >= 0, x <= y)):
                    return z3.If(z3.simplify(x == y), z3.IntVal(0), z3.simplify(x)) if mod else z3.If(x == y, z3.IntVal(1), z3.IntVal(0))
            return z3.simplify(x % y if mod else x / y)
    raise Unsupported("operator %s on %r, %r" % (type(op).__name__, a, b))


OPN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.Pow: "pow", ast.MatMult: "matmul", ast.BitXor: "xor",
       ast.BitAnd: "and", ast.BitOr: "or"}


def dexpr_term(v):
    if isinstance(v, DExpr):
        return v.term
    if is_num(v):
        return real(v)
    raise Unsupported("docplex operand %r" % (v,))


def dexpr_op(eng, op, a, b):
    if isinstance(op, ast.Pow):
        k = conc(b)
        if k == 2:
            return DExpr(a.term * a.term)
        raise Unsupported("docplex power")
    x, y = dexpr_term(a), dexpr_term(b)
    if isinstance(op, ast.Add):
        return DExpr(z3.simplify(x + y))
    if isinstance(op, ast.Sub):
        return DExpr(z3.simplify(x - y))
    if isinstance(op, ast.Mult):
        return DExpr(z3.simplify(x * y))
    if isinstance(op, ast.Div) and not isinstance(b, DExpr):
        return DExpr(x / y)
    raise Unsupported("docplex operator")


def arr_op(eng, op, a, b):
    if getattr(eng, "array_op", None):
        return eng.array_op(eng, op, a, b)
    ca = eng.cell(a) if isinstance(a, Ref) else a
    cb = eng.cell(b) if isinstance(b, Ref) else b
    if isinstance(op, ast.Mult) or isinstance(op, ast.Div):
        if isinstance(ca, DictV) and is_num(cb):
            f = (lambda v: binop(eng, op, v, cb))
            return eng.new(ca.copy(pieces=[Piece(p.binders, p.guard, p.key, f(p.val), p.mode) for p in ca.pieces]))
        if isinstance(cb, DictV) and is_num(ca) and isinstance(op, ast.Mult):
            return arr_op(eng, op, b, a)
    if isinstance(op, (ast.Add, ast.Sub)) and isinstance(ca, DictV) and isinstance(cb, DictV) and ca.kind == cb.kind == "arr":
        neg_ = isinstance(op, ast.Sub)
        ps = [Piece(p.binders, p.guard, p.key, p.val, "add") for p in ca.pieces]
        ps += [Piece(p.binders, p.guard, p.key, -real(p.val) if neg_ else p.val, "add") for p in cb.pieces]
        return eng.new(ca.copy(pieces=ps))
    raise Unsupported("array operation")


def unop(eng, op, v):
    if isinstance(op, ast.USub):
        if isinstance(v, DExpr):
            return DExpr(-v.term)
        if isinstance(v, (int, float)):
            return -v
        if is_num(v):
            return z3.simplify(-v)
        if isinstance(v, Rec):
            h = eng.rec_handlers.get((v.kind, "__neg__"))
            if h:
                return h(eng, [v], {})
        if isinstance(v, Ref):
            return binop(eng, ast.Mult(), v, -1)
    if isinstance(op, ast.UAdd):
        return v
    raise Unsupported("unary operator on %r" % (v,))


def truthy(eng, v):
    if isinstance(v, bool):
        return v
    if v is None:
        return False
    if isinstance(v, (int, float, str, tuple)):
        return bool(v)
    if isz(v):
        if v.sort() == B:
            return v
        if v.sort() in (R, I):
            return v != 0
        if v.sort() == Name:
            return True     # names are non-empty
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, (ListV, DictV)):
            if c.base is not None:
                raise Unsupported("emptiness of a container the loop modifies")
            segs = c.segs if isinstance(c, ListV) else c.pieces
            if isinstance(c, DictV) and c.kind in ("arr", "dok"):
                raise Unsupported("truth value of an array")
            if not segs:
                return False
            e = bor(*[mk_exists(s.binders, s.guard) for s in segs])
            return True if z3.is_true(e) else e
        if isinstance(c, ObjV) and isinstance(c.cls, ClassV):
            for nm in ("__bool__", "__len__"):
                if eng.find_member(c.cls, nm)[1]:
                    return truthy(eng, eng.call(eng.getattr(v, nm), []))
        return True
    if isinstance(v, (Rec, EnumV, SymEnum, FuncV, ClassV, NativeV, BoundV, NType, NModule, StrV)):
        return True
    raise Unsupported("truth value of %r" % (v,))


def equal(eng, a, b):
    if isinstance(a, (NType, ClassV)) and isinstance(b, (NType, ClassV)):
        return a is b or isinstance(a, NType) and isinstance(b, NType) and a.name == b.name
    """Python == as bool or Bool term."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (bool,)) and isinstance(b, bool):
        return a == b
    if isz(a) and a.sort() == B or isz(b) and b.sort() == B or isinstance(a, bool) or isinstance(b, bool):
        tb = [z3.BoolVal(x) if isinstance(x, bool) else x for x in (a, b)]
        if all(isz(x) and x.sort() == B for x in tb):
            return z3.simplify(tb[0] == tb[1])
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Rec):
            h = eng.rec_handlers.get((x.kind, "__eq__"))
            if h:
                return h(eng, [x, y], {})
        if isinstance(x, Ref):
            c = eng.cell(x)
            if isinstance(c, ObjV) and isinstance(c.cls, ClassV) and eng.find_member(c.cls, "__eq__")[1]:
                return eng.call(eng.getattr(x, "__eq__"), [y])
    if isinstance(a, DExpr) or isinstance(b, DExpr):
        return DCons(dexpr_term(a), "==", dexpr_term(b), all(not isinstance(x, DExpr) or x.maybe for x in (a, b)))
    if isinstance(a, Ref) and isinstance(b, Ref) and a != b:
        ca, cb = eng.cell(a), eng.cell(b)
        if isinstance(ca, ListV) and isinstance(cb, ListV) and ca.concrete() and cb.concrete():
            if len(ca.segs) != len(cb.segs):
                return False
            cs = [equal(eng, x.val, y.val) for x, y in zip(ca.segs, cb.segs)]
            return z3.simplify(band(*cs)) if not all(isinstance(c, bool) for c in cs) else all(cs)
        if isinstance(ca, (ListV, DictV)) or isinstance(cb, (ListV, DictV)):
            raise Unsupported("comparison of containers")
    if isinstance(a, Rec) and isinstance(b, Rec) and (a.ident is None or b.ident is None):
        if a is b:
            return True
        raise Unsupported("identity of records")
    e = unify(a, b)
    if e is None:
        return False
    if not e:
        return True
    return z3.simplify(band(*e))


def compare(eng, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        if a is None or b is None:
            r = a is None and b is None
        elif isinstance(a, Ref) and isinstance(b, Ref):
            r = a == b
        elif isinstance(a, bool) and isinstance(b, bool):
            r = a == b
        elif all(isinstance(x, bool) or isz(x) and x.sort() == B for x in (a, b)):
            r = equal(eng, a, b)
        elif isinstance(a, (EnumV, SymEnum, Rec)) and isinstance(b, (EnumV, SymEnum, Rec)):
            r = equal(eng, a, b)
        else:
            raise Unsupported("is")
        return (not r if isinstance(r, bool) else bnot(r)) if isinstance(op, ast.IsNot) else r
    if isinstance(op, ast.Eq):
        return equal(eng, a, b)
    if isinstance(op, ast.NotEq):
        r = equal(eng, a, b)
        return (not r) if isinstance(r, bool) else bnot(r)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(eng, b, a)
        if isinstance(op, ast.NotIn):
            return (not r) if isinstance(r, bool) else bnot(r)
        return r
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(x, Rec):
            nm = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
            if sw:
                nm = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[nm]
            h = eng.rec_handlers.get((x.kind, "__%s__" % nm))
            if h:
                return h(eng, [x, y], {})
    if isinstance(a, DExpr) or isinstance(b, DExpr):
        s = {ast.LtE: "<=", ast.GtE: ">="}.get(type(op))
        if s is None:
            raise Unsupported("docplex comparison")
        return DCons(dexpr_term(a), s, dexpr_term(b), all(not isinstance(x, DExpr) or x.maybe for x in (a, b)))
    if is_inf(a) or is_inf(b):
        return inf_cmp(op, a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
    if is_num(a) and is_num(b):
        x, y = num(a), num(b)
        if x.sort() != y.sort():
            x, y = real(x), real(y)
        return z3.simplify({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]())
    raise Unsupported("comparison of %r and %r" % (a, b))


def is_inf(v):
    return isinstance(v, float) and v in (float("inf"), float("-inf"))


def inf_cmp(op, a, b):
    va = a if is_inf(a) else 0.0
    vb = b if is_inf(b) else 0.0
    if not is_inf(a) and not is_num(a) or not is_inf(b) and not is_num(b):
        raise Unsupported("comparison with infinity")
    return {ast.Lt: va < vb, ast.LtE: va <= vb, ast.Gt: va > vb, ast.GtE: va >= vb}[type(op)]


def contains(eng, c, v):
    if isinstance(c, str) and isinstance(v, str):
        return v in c
    h = obj_op(eng, c, "__contains__")
    if h:
        return h(eng, [c, v], {})
    if isinstance(c, Rec):
        h = eng.rec_handlers.get((c.kind, "__contains__"))
        if h:
            return h(eng, [c, v], {})
        raise Unsupported("membership in %s" % c.kind)
    if isinstance(c, tuple):
        rs = [equal(eng, x, v) for x in c]
        if all(isinstance(r, bool) for r in rs):
            return any(rs)
        return z3.simplify(bor(*rs))
    if isinstance(c, Ref):
        k = eng.cell(c)
        if isinstance(k, DictV):
            return present(k, norm_key(eng, k, v))
        if isinstance(k, ListV):
            if k.base is not None:
                raise Unsupported("membership in a list the loop modifies")
            rs = []
            for s in k.segs:
                nb, g, x = refresh(s.binders, s.guard, s.val)
                e = unify_eq(eng, x, v)
                if e is False:
                    continue
                m, conds, rem = solve(nb, e)
                rs.append(mk_exists(rem, z3.simplify(band(subst(g, m), *conds))) if rem else z3.simplify(band(subst(g, m), *conds)))
            if not rs:
                return False
            return z3.simplify(bor(*rs))
        if isinstance(k, ObjV):
            return eng.call(eng.getattr(c, "__contains__"), [v])
    raise Unsupported("membership in %r" % (c,))


def unify_eq(eng, a, b):
    r = equal(eng, a, b)
    if isinstance(r, bool):
        return [] if r else False
    return list(r.children()) if z3.is_and(r) else [r]


def concat_str(eng, parts):
    out = []
    for p in parts:
        if p is None or isinstance(p, (EnumV, SymEnum)):
            out.append(UNKNOWN)
        elif isinstance(p, StrV):
            out.extend(p.parts)
        elif isinstance(p, str):
            out.append(p)
        elif isinstance(p, bool):
            out.append(str(p))
        elif isinstance(p, (int, float)):
            out.append(str(p))
        elif isz(p) and p.sort() in (I, Name):
            q = conc(p)
            out.append(str(q) if isinstance(q, int) else p)
        else:
            out.append(UNKNOWN)
    res = []
    for p in out:
        if res and isinstance(p, str) and isinstance(res[-1], str) and UNKNOWN is not p and UNKNOWN is not res[-1]:
            res[-1] += p
        else:
            res.append(p)
    res = [p for p in res if not (isinstance(p, str) and p == "")] or [""]
    if len(res) == 1 and res[0] is not UNKNOWN and (isinstance(res[0], str) or isz(res[0]) and res[0].sort() == Name):
        return res[0]
    return StrV(res)


# ------------------------------------------------------------------ iteration
def arr_iter(eng, ref, c, pre, lazy):
    """Iteration over an array (row): values are read when the iteration reaches them (numpy views)."""
    b = Binder(freshi(), z3.IntVal(0), num(c.shape[len(pre)]))
    key = pre + (b.var,)
    if len(key) < len(c.shape):
        return SeqV([Seg([b], TRUE, Rec("arrrow", {"ref": ref, "key": key}))])
    return SeqV([Seg([b], TRUE, Rec("arrview", {"ref": ref, "key": key}) if lazy else dget(eng, ref, c, key))])


def iterate(eng, v, lazy=False):
    if isinstance(v, SeqV):
        return v
    if isinstance(v, Rec) and v.kind == "arrrow":
        return arr_iter(eng, v.attrs["ref"], eng.cell(v.attrs["ref"]), v.attrs["key"], lazy)
    if isinstance(v, Ref) and isinstance(eng.cell(v), DictV) and eng.cell(v).kind == "arr":
        return arr_iter(eng, v, eng.cell(v), (), lazy)
    if isinstance(v, tuple):
        return SeqV([elem(x) for x in v])
    if isinstance(v, str):
        return SeqV([elem(x) for x in v])
    if isinstance(v, Rec):
        h = eng.rec_handlers.get((v.kind, "__iter__"))
        if h:
            return h(eng, [v], {})
    if isinstance(v, ClassV) and v.enum:
        return SeqV([elem(m[1]) for m in v.members.values() if m[0] == "const"])
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, ListV):
            if c.base is not None:
                raise Unsupported("iteration over a list the loop modifies")
            return SeqV(c.segs, unordered=c.unordered)
        if isinstance(c, DictV):
            return dict_keys(eng, [v], {})
        h = obj_op(eng, v, "__iter__")
        if h:
            return h(eng, [v], {})
        if isinstance(c, ObjV):
            return iterate(eng, eng.call(eng.getattr(v, "__iter__"), []))
    raise Unsupported("iteration over %r" % (v,))


def all_distinct(eng, pieces):
    """No two instances of the pieces share a key: additive pieces are then plain entries."""
    for x, p in enumerate(pieces):
        for y in range(x, len(pieces)):
            q = pieces[y]
            if p.mode == "set" and q.mode == "set":
                continue
            b1, g1, k1 = refresh(p.binders, p.guard, p.key)
            b2, g2, k2 = refresh(q.binders, q.guard, q.key)
            eqs = unify(k1, k2)
            if eqs is None or x == y and not b1:
                continue
            hyp = [b.range() for b in b1 + b2] + [g1, g2] + eqs
            if x == y:
                hyp.append(bor(*[u.var != v.var for u, v in zip(b1, b2)]))
            if eng.feasible(band(*hyp)):
                return False
    return True


def dict_seq(eng, ref, f):
    c = eng.cell(ref)
    if c.base is not None:
        raise Unsupported("iteration over a dict the loop modifies")
    if c.kind == "arr":
        if len(c.shape) != 1:
            raise Unsupported("iteration over a matrix")
        b = freshi()
        return SeqV([Seg([Binder(b, z3.IntVal(0), num(c.shape[0]))], TRUE, f((b,), dsum(c, (b,))))])
    linear = any(p.mode == "add" for p in c.pieces) and not all_distinct(eng, c.pieces)
    return SeqV([Seg(p.binders, p.guard, f(p.key, p.val)) for p in c.pieces], linear)


def dict_items(eng, a, k):
    return dict_seq(eng, a[0], lambda k, v: (k if not (isinstance(k, tuple) and len(k) == 1) else k[0], v))


def dict_values(eng, a, k):
    return dict_seq(eng, a[0], lambda k, v: v)


def dict_keys(eng, a, k):
    c = eng.cell(a[0])
    if isinstance(c, DictV) and c.kind == "arr":
        return dict_values(eng, a, k)
    s = dict_seq(eng, a[0], lambda k, v: k if not (isinstance(k, tuple) and len(k) == 1) else k[0])
    if s.linear:
        raise Unsupported("keys of an additive dict")
    return s


def list_extend(eng, a, k):
    c = eng.cell(a[0])
    _mutable(eng, a[0])
    s = iterate(eng, a[1])
    if s.linear:
        raise Unsupported("list of an additive dict")
    eng.put(a[0], ListV(c.segs + s.segs, c.kind, c.base, less_ordered(c.unordered, s.unordered)))


def less_ordered(a, b):
    return True if a is True or b is True else a or b


def to_list(eng, v, kind="list"):
    s = iterate(eng, v)
    if s.linear:
        raise Unsupported("list of an additive dict")
    return eng.new(ListV(s.segs, kind, unordered=s.unordered))


def seq_sum(eng, v, start=0):
    s = iterate(eng, v)
    allint = True
    tot = [num(start) if not isinstance(start, DExpr) else start]
    for sg in s.segs:
        x = sg.val
        if isinstance(x, DExpr):
            t = mk_sum(sg.binders, sg.guard, x.term)
            cur = tot[0]
            tot[0] = DExpr(dexpr_term(cur) + t)
            continue
        if isinstance(x, DCons) or isinstance(x, Rec):
            cur = tot[0]
            if not sg.plain():
                raise Unsupported("sum of %r" % (x,))
            tot[0] = binop(eng, ast.Add(), cur if not is_zero(cur) else 0, x)
            continue
        if isinstance(x, bool) or isz(x) and x.sort() == B:
            if isz(x) and sg.binders:
                sg, x = Seg(sg.binders, z3.simplify(band(sg.guard, x)), 1), 1
            x = z3.If(x, z3.IntVal(1), z3.IntVal(0)) if isz(x) else int(x)
        if not is_num(x):
            raise Unsupported("sum of %r" % (x,))
        x = num(x)
        if isinstance(tot[0], DExpr):
            tot[0] = DExpr(tot[0].term + mk_sum(sg.binders, sg.guard, real(x)))
            continue
        if x.sort() == I and tot[0].sort() == I and not sg.binders:
            tot[0] = tot[0] + (x if z3.is_true(sg.guard) else z3.If(sg.guard, x, z3.IntVal(0)))
        else:
            part = mk_sum(sg.binders, sg.guard, real(undg(x)))
            if z3.is_int_value(x) and x.as_long() == 1 and sg.binders and not z3.is_true(sg.guard):
                tie_count(eng, sg.binders, sg.guard, part)
            tot[0] = real(tot[0]) + part
    t = tot[0]
    if isinstance(t, DExpr):
        return t
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else t


def seq_exists(eng, v, pos):
    s = iterate(eng, v)
    acc = []
    for sg in s.segs:
        t = truthy(eng, sg.val) if not isinstance(sg.val, DCons) else None
        if t is None:
            raise Unsupported("any over constraints")
        t = z3.BoolVal(t) if isinstance(t, bool) else t
        acc.append(mk_exists(sg.binders, band(sg.guard, t if pos else z3.Not(t))))
    e = z3.simplify(bor(*acc)) if acc else z3.BoolVal(False)
    return conc(e if pos else z3.simplify(z3.Not(e)))


def extremum(eng, args, kwargs, ismax):
    key = kwargs.get("key")
    if key is not None:
        raise Unsupported("min/max with key")
    vals = args
    if len(args) == 1:
        s = iterate(eng, args[0])
        if not s.segs:
            if "default" in kwargs:
                return kwargs["default"]
            eng.raise_("ValueError")
        if not all(sg.plain() for sg in s.segs):
            return sym_extremum(eng, s, ismax, kwargs)
        vals = [sg.val for sg in s.segs]
    if any(is_inf(v) for v in vals):
        drop = float("-inf") if ismax else float("inf")
        if any(v == -drop for v in vals if is_inf(v)):
            return -drop
        vals = [v for v in vals if not is_inf(v)] or [drop]
        if len(vals) == 1:
            return vals[0]
    if all(isinstance(v, (int, float)) for v in vals):
        return max(vals) if ismax else min(vals)
    if not all(is_num(v) for v in vals):
        raise Unsupported("min/max of %r" % (vals,))
    ts = [num(v) for v in vals]
    if any(t.sort() == R for t in ts):
        ts = [real(t) for t in ts]
    acc = ts[0]
    for t in ts[1:]:
        acc = z3.If(t > acc, t, acc) if ismax else z3.If(t < acc, t, acc)
    return z3.simplify(acc)


def sym_extremum(eng, s, ismax, kwargs):
    nonempty = bor(*[mk_exists(g.binders, g.guard) for g in s.segs])
    if not eng.entailed(nonempty):
        if not eng.branch(nonempty):
            if "default" in kwargs:
                return kwargs["default"]
            eng.raise_("ValueError")
    allint = all(is_num(g.val) and num(g.val).sort() == I for g in s.segs)
    m = skolem(eng, "ext", I if allint else R)
    att = []
    for g in s.segs:
        nb, gd, v = refresh(g.binders, g.guard, g.val)
        x = num(v) if allint else real(v)
        body = z3.Implies(band(*([b.range() for b in nb] + [gd])), (x <= m) if ismax else (x >= m))
        eng.aux_fact(z3.ForAll([b.var for b in nb], body) if nb else body)
        att.append(mk_exists(nb, band(gd, x == m)))
    a = bor(*att)
    eng.aux_fact(a)
    eng.expose(a, True)
    return m


# ------------------------------------------------------------------ attributes
def obj_attr(eng, o, c, name):
    h = eng.obj_handlers.get((c.cls if isinstance(c.cls, str) else c.cls.name, name))
    if h is not None:
        return BoundV(NativeV("", h), o) if not isinstance(h, tuple) else h[0](eng, o)
    for k in (eng.mro(c.cls) if isinstance(c.cls, ClassV) else ()):
        if (k.name, name) in eng.obj_handlers:
            h = eng.obj_handlers[k.name, name]
            return BoundV(NativeV("", h), o) if not isinstance(h, tuple) else h[0](eng, o)
    return MISSING


def obj_setattr(eng, o, c, name, val):
    h = eng.obj_setters.get((c.cls, name))
    if h:
        h(eng, o, val)
        return True
    return False


def value_setattr(eng, o, name, val):
    h = eng.rec_handlers.get((o.kind, name + "=")) if isinstance(o, Rec) else None
    if h:
        h(eng, o, val)
        return True
    return False


def cell_attr(eng, o, c, name):
    table = LIST_M if isinstance(c, ListV) else DICT_M
    if isinstance(c, DictV) and c.kind in ("arr", "dok"):
        if name == "shape":
            return tuple(conc(x) for x in c.shape)
        if name == "size" and len(c.shape) == 1:
            return conc(c.shape[0])
        if name == "dtype":
            return NModule("dtype")
        if name == "T" and (c.kind, "transpose") in eng.arr_methods:
            return eng.arr_methods[c.kind, "transpose"](eng, [o], {})
        if (c.kind, name) in eng.arr_methods:
            return BoundV(NativeV("", eng.arr_methods[c.kind, name]), o)
    if name in table:
        return BoundV(NativeV("", table[name]), o)
    raise Unsupported("attribute %s of %s" % (name, type(c).__name__))


def value_attr(eng, o, name):
    if isinstance(o, NoOp):
        return NOOP
    if isinstance(o, NModule):
        d = o.name + "." + name
        if d in eng.natives:
            return eng.natives[d]
        if o.name.startswith("logging") or o.name == "warnings":
            return NOOP
        return NModule(d)
    if isinstance(o, NType):
        d = o.name + "." + name
        if d in eng.natives:
            return eng.natives[d]
        full = [k for k, v in eng.overrides.items() if v is o and k.count(".") > 2]
        if full:
            # class constants of a class replaced by its contract
            k, m = eng.find_member(eng.raw_class(full[0]), name)
            if m and m[0] in ("lazy", "const"):
                return eng.getattr(eng.raw_class(full[0]), name)
        raise Unsupported("attribute %s" % d)
    if isinstance(o, EnumV):
        if name == "value":
            return o.value
        if name == "name":
            return o.name
        for c in eng.enum_classes:
            if c.name == o.cls and name in c.members:
                return eng.member(o, c, c.members[name])
    if isinstance(o, SymEnum):
        if name == "value":
            return o.term
        home = {"ObjSense": "quadratic_objective", "ConstraintSense": "constraint", "VarType": "variable"}.get(o.cls)
        if home and not any(c.name == o.cls for c in eng.enum_classes):
            eng.resolve("qiskit_optimization.problems.%s.%s" % (home, o.cls))
        for c in eng.enum_classes:
            if c.name == o.cls and name in c.members:
                return eng.member(o, c, c.members[name])
    if isinstance(o, Rec):
        if name in o.attrs:
            v = o.attrs[name]
            return materialise(eng, v)
        h = eng.rec_handlers.get((o.kind, name))
        if h is not None:
            return h[0](eng, o) if isinstance(h, tuple) else BoundV(NativeV("", h), o)
        if o.kind == "arrrow" and name == "shape":
            return tuple(conc(x) for x in eng.cell(o.attrs["ref"]).shape[len(o.attrs["key"]):])
        raise Unsupported("attribute %s of %s" % (name, o.kind))
    if is_num(o) or isz(o) and o.sort() == B:
        if name == "is_integer":
            return BoundV(NativeV("", lambda eng, a, k: is_integer(a[0])), o)
        if name == "item":
            return BoundV(NativeV("", lambda eng, a, k: a[0]), o)
    if isinstance(o, (str, StrV)) or isz(o) and o.sort() == Name:
        return str_attr(eng, o, name)
    if isinstance(o, tuple):
        if name == "index" or name == "count":
            raise Unsupported("tuple.%s" % name)
    if isinstance(o, SeqV):
        raise Unsupported("attribute of a sequence")
    if isinstance(o, FuncV) and name == "__name__":
        return o.node.name
    if isinstance(o, ExcV):
        return StrV([UNKNOWN])
    raise Unsupported("attribute %s of %r" % (name, o))


def is_integer(v):
    if isinstance(v, (int, float)):
        return float(v).is_integer()
    if v.sort() == I:
        return True
    return z3.simplify(z3.IsInt(v))


def str_attr(eng, o, name):
    if name == "format":
        def fmt(eng, a, k):
            s = a[0]
            if not isinstance(s, str) or k:
                return StrV([UNKNOWN])
            if s == "{:b}" and ("int", "binary") in eng.rec_handlers:
                return eng.rec_handlers["int", "binary"](eng, a[1:], k)
            out, cur, i, n = [], "", 0, 0
            while i < len(s):
                if s[i] == "{":
                    j = s.index("}", i)
                    f = s[i + 1:j]
                    out.append(cur)
                    cur = ""
                    if f == "":
                        out.append(a[1 + n])
                        n += 1
                    elif f.isdigit():
                        out.append(a[1 + int(f)])
                    else:
                        out.append(None)
                    i = j + 1
                else:
                    cur += s[i]
                    i += 1
            out.append(cur)
            return concat_str(eng, out)
        return BoundV(NativeV("", fmt), o)
    if isinstance(o, str):
        def meth(eng, a, k):
            if not all(isinstance(x, (str, int)) for x in a):
                raise Unsupported("str.%s" % name)
            r = getattr(a[0], name)(*a[1:])
            return eng.new(ListV([elem(x) for x in r])) if isinstance(r, list) else r
        if hasattr(str, name) and name != "join":
            return BoundV(NativeV("", meth), o)
        if name == "join":
            return BoundV(NativeV("", lambda eng, a, k: StrV([UNKNOWN])), o)
    if isz(o) and o.sort() == Name and name in ("upper", "lower"):
        return BoundV(NativeV("str." + name, lambda eng, a, k: z3.Function("str_" + name, Name, Name)(a[0])), o)
    raise Unsupported("str.%s" % name)


def d_get(eng, a, k):
    return dict_lookup(eng, a[0], eng.cell(a[0]), a[1], a[2] if len(a) > 2 else None)


def d_setdefault(eng, a, k):
    c = eng.cell(a[0])
    key = norm_key(eng, c, a[1])
    if eng.branch(present(c, key)):
        return dict_lookup(eng, a[0], c, key)
    v = a[2] if len(a) > 2 else None
    setitem(eng, a[0], key, v)
    return v


def d_update(eng, a, k):
    o = eng.cell(a[1]) if isinstance(a[1], Ref) else None
    if isinstance(o, DictV) and all(not p.binders and z3.is_true(p.guard) and p.mode == "set" for p in o.pieces):
        for p in o.pieces:
            setitem(eng, a[0], p.key, p.val)
        return
    c = eng.cell(a[0])
    if isinstance(o, DictV) and not c.pieces and c.base is None:
        eng.put(a[0], c.copy(pieces=list(o.pieces)))
        return
    if isinstance(o, DictV) and a[0] is not a[1]:
        node = ast.parse("def update(d, o):\n for k, v in o.items():\n  d[k] = v").body[0]
        eng.call(FuncV(node, None, None, qual=""), [a[0], a[1]])
        return
    raise Unsupported("dict.update")


def d_copy(eng, a, k):
    return eng.new(eng.cell(a[0]))


def d_pop(eng, a, k):
    c = eng.cell(a[0])
    v = dict_lookup(eng, a[0], c, a[1], a[2] if len(a) > 2 else MISSING)
    delitem(eng, a[0], a[1])
    return v


def d_clear(eng, a, k):
    _mutable(eng, a[0])
    eng.put(a[0], eng.cell(a[0]).copy(pieces=[]))


def l_clear(eng, a, k):
    _mutable(eng, a[0])
    c = eng.cell(a[0])
    eng.put(a[0], ListV([], c.kind))


def l_pop(eng, a, k):
    c = eng.cell(a[0])
    _mutable(eng, a[0])
    if not c.concrete() or not c.segs:
        raise Unsupported("pop")
    i = conc(a[1]) if len(a) > 1 else -1
    segs = list(c.segs)
    v = segs.pop(i).val
    eng.put(a[0], ListV(segs, c.kind))
    return v


def l_insert(eng, a, k):
    c = eng.cell(a[0])
    _mutable(eng, a[0])
    i = conc(a[1])
    if i == 0 and c.base is None:
        eng.put(a[0], ListV([elem(a[2])] + c.segs, c.kind, None, c.unordered))
        return
    raise Unsupported("insert")


def set_add(eng, a, k):
    c = eng.cell(a[0])
    if c.base is None and all(s.plain() for s in c.segs):
        r = contains(eng, a[0], a[1])
        if r is True or (not isinstance(r, bool) and eng.branch(r)):
            return
    append(eng, a[0], a[1])


LIST_M = {"sort": lambda eng, a, k: l_sort(eng, a, k), "append": lambda eng, a, k: append(eng, a[0], a[1]), "extend": list_extend, "clear": l_clear, "pop": l_pop, "insert": l_insert,
          "copy": d_copy, "add": set_add, "tolist": d_copy}
DICT_M = {"items": dict_items, "values": dict_values, "keys": dict_keys, "get": d_get, "setdefault": d_setdefault, "update": d_update,
          "copy": d_copy, "pop": d_pop, "clear": d_clear}


# ------------------------------------------------------------------ builtins
def b_range(eng, a, k):
    xs = [num(x) for x in a]
    lo, hi = (z3.IntVal(0), xs[0]) if len(xs) == 1 else (xs[0], xs[1])
    step = conc(xs[2]) if len(xs) > 2 else 1
    if any(x.sort() != I for x in xs):
        eng.raise_("TypeError")
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    if z3.is_int_value(lo) and z3.is_int_value(hi) and isinstance(step, int):
        return SeqV([elem(i) for i in range(lo.as_long(), hi.as_long(), step)])
    if step != 1:
        raise Unsupported("range with a step")
    b = freshi()
    return SeqV([Seg([Binder(b, lo, hi)], TRUE, b)])


def b_enumerate(eng, a, k):
    start = num(a[1]) if len(a) > 1 else num(k.get("start", 0))
    s = iterate(eng, a[0], True)
    un = s.unordered
    off, out = start, []
    for sg in s.segs:
        n = seg_count(sg)
        if n is None or un or off is None:
            nm = pos_name(sg.val)
            if nm is None:
                raise Unsupported("positions of a filtered sequence")
            out.append(Seg(sg.binders, sg.guard, (Rec("pos", {"of": nm}), sg.val)))
            off = None
            continue
        if not sg.binders:
            out.append(Seg([], sg.guard, (conc(z3.simplify(off)), sg.val)))
        else:
            b = sg.binders[0]
            out.append(Seg(sg.binders, sg.guard, (z3.simplify(off + b.var - b.lo), sg.val)))
        off = z3.simplify(off + n)
    return SeqV(out, s.linear, s.unordered)


def pos_name(v):
    if isinstance(v, Rec) and v.kind == "var":
        return v.attrs["name"]
    if isz(v) and v.sort() == Name:
        return v
    return None


def b_zip(eng, a, k):
    ss = [iterate(eng, x, True) for x in a]
    if any(s.unordered and (len(s.segs) > 1 or s.unordered is True) for s in ss):
        raise Unsupported("zip of sequences in unknown order")
    if all(all(g.plain() for g in s.segs) for s in ss):
        n = min(len(s.segs) for s in ss)
        return SeqV([elem(tuple(s.segs[i].val for s in ss)) for i in range(n)])
    if all(len(s.segs) == 1 and len(s.segs[0].binders) == 1 and z3.is_true(s.segs[0].guard) for s in ss):
        b0 = s0 = ss[0].segs[0].binders[0]
        vals = []
        for s in ss:
            b = s.segs[0].binders[0]
            if not eng.entailed(z3.And(b.lo == b0.lo, b.hi == b0.hi)):
                if not eng.entailed(b.hi - b.lo == b0.hi - b0.lo):
                    raise Unsupported("zip of different lengths")
            vals.append(vsub(s.segs[0].val, [(b.var, z3.simplify(b0.var - b0.lo + b.lo))]))
        return SeqV([Seg([b0], TRUE, tuple(vals))])
    raise Unsupported("zip")


def b_len(eng, a, k):
    v = a[0]
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, Rec):
        h = eng.rec_handlers.get((v.kind, "__len__"))
        if h:
            return h(eng, [v], {})
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, ObjV):
            return eng.call(eng.getattr(v, "__len__"), [])
        return length(eng, c)
    if isinstance(v, SeqV):
        return length(eng, ListV(v.segs))
    raise Unsupported("len of %r" % (v,))


def type_name(t):
    return getattr(t, "name", str(t)).split(".")[-1]


def b_isinstance(eng, a, k):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    res = [isinst1(eng, v, x) for x in ts]
    if all(isinstance(r, bool) for r in res):
        return any(res)
    return z3.simplify(bor(*res))


def b_issubclass(eng, a, k):
    if isinstance(a[0], ClassV) and isinstance(a[1], ClassV):
        return any(x is a[1] for x in eng.mro(a[0]))
    raise Unsupported("issubclass")


def isinst1(eng, v, t):
    n = type_name(t)
    if isinstance(v, bool) or isz(v) and v.sort() == B:
        return n in ("bool", "int", "Integral")
    if isinstance(v, int) or isz(v) and v.sort() == I:
        return n in ("int", "Integral", "Number", "Real")
    if isinstance(v, float) or isz(v) and v.sort() == R:
        return n in ("float", "Number", "Real", "float64", "floating")
    if namelike(v):
        return n == "str"
    if v is None:
        return n == "NoneType"
    if isinstance(v, tuple):
        return n in ("tuple", "Sequence", "Iterable")
    if isinstance(v, (EnumV, SymEnum)):
        return isinstance(t, ClassV) and t.name == v.cls
    if isinstance(v, Rec):
        return eng.rec_isinstance(v, t)
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, ListV):
            return n == c.kind or n in ("Sequence", "Iterable")
        if isinstance(c, DictV):
            return {"dict": ("dict", "Mapping"), "defaultdict": ("dict", "defaultdict", "Mapping"), "arr": ("ndarray",), "dok": ("dok_matrix", "spmatrix", "dict")}[c.kind].count(n) > 0
        if isinstance(c, ObjV):
            if isinstance(c.cls, ClassV):
                return any(x is t or x.name == n and isinstance(t, ClassV) for x in eng.mro(c.cls))
            return c.cls == n or c.cls == "AProg" and n == "QuadraticProgram"
    if isinstance(v, (DExpr, DCons)):
        return n in eng.dexpr_types
    if isinstance(v, (FuncV, NativeV, BoundV)):
        return n in ("Callable", "function")
    raise Unsupported("isinstance(%r, %s)" % (v, n))


def b_float(eng, a, k):
    v = a[0] if a else 0.0
    if isinstance(v, str):
        return float(v)
    if isinstance(v, (int, float)):
        return float(v)
    if isz(v) and v.sort() in (R, I, B):
        return real(v)
    raise Unsupported("float(%r)" % (v,))


def b_int(eng, a, k):
    v = a[0] if a else 0
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, str):
        return int(v)
    if isz(v) and v.sort() == I:
        return v
    if isz(v) and v.sort() == B:
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isz(v) and v.sort() == R:
        if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
            return v.arg(0)
        if eng.entailed(v >= 0):
            return z3.simplify(z3.ToInt(v))
        return z3.simplify(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
    raise Unsupported("int(%r)" % (v,))


def b_abs(eng, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if is_num(v):
        return z3.simplify(z3.If(v >= 0, v, -v))
    raise Unsupported("abs")


def b_str(eng, a, k):
    v = a[0] if a else ""
    return concat_str(eng, [v])


def key_le(eng, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        if not x:
            return TRUE
        lt, eq = key_le(eng, x[0], y[0]), key_le(eng, y[0], x[0])
        return z3.Or(z3.And(lt, z3.Not(eq)), z3.And(lt, eq, key_le(eng, x[1:], y[1:])))
    if is_num(x) and is_num(y):
        return num(x) <= num(y)
    raise Unsupported("sort key %r" % (x,))


def sorted_segs(eng, s, key, reverse):
    """Elements in sorted order: a permutation of the index points, about which only what sorting promises is known."""
    if len(s.segs) == 0:
        return []
    if s.linear or len(s.segs) != 1 or len(s.segs[0].binders) != 1 or eng.binders or conc(reverse) not in (False, True):
        return None
    from . import loops
    from .interp import Scope
    g = s.segs[0]
    b = g.binders[0]
    out, cur = eng.new(ListV([])), {}
    if key is not None:
        sc = Scope(None, (eng.new(ObjV("frame", {})),))
        loops.run_for(eng, SeqV([g], s.linear), lambda v: cur.update(v=v), lambda: append(eng, out, eng.call(key, [cur["v"]])), sc)
        ks = eng.cell(out).segs
        if len(ks) != 1 or len(ks[0].binders) != 1 or not z3.simplify(subst(ks[0].guard, [(ks[0].binders[0].var, b.var)])).eq(z3.simplify(g.guard)):
            raise Unsupported("sort key")
        kv = vsub(ks[0].val, [(ks[0].binders[0].var, b.var)])
    else:
        kv = g.val
    if z3.is_true(z3.simplify(g.guard)):
        n = z3.simplify(z3.If(b.hi > b.lo, b.hi - b.lo, z3.IntVal(0)))
        if eng.entailed(b.hi >= b.lo):
            n = z3.simplify(b.hi - b.lo)
    else:
        n = num(length(eng, ListV([g])))
    u = next(_cnt)
    P, Q = z3.Function("perm!%d" % u, I, I), z3.Function("rank!%d" % u, I, I)
    k, l = z3.Int("sk!%d" % u), z3.Int("sl!%d" % u)
    at = lambda t, e: subst(t, [(b.var, e)])
    ok = band(b.range(), undg(g.guard))
    eng.aux_fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(at(ok, P(k)), Q(P(k)) == k)), patterns=[P(k)]))
    eng.aux_fact(z3.ForAll([k], z3.Implies(at(ok, k), z3.And(Q(k) >= 0, Q(k) < n, P(Q(k)) == k)), patterns=[Q(k)]))
    a, c = (vsub(kv, [(b.var, P(x))]) for x in ((l, k) if conc(reverse) else (k, l)))
    le = undg(key_le(eng, a, c))
    eng.aux_fact(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k <= l, l < n), le), patterns=[z3.MultiPattern(P(k), P(l))]))
    r = freshi("r")
    eng.sorts = getattr(eng, "sorts", []) + [(P, Q, n)]
    return [Seg([Binder(r, z3.IntVal(0), n)], TRUE, vsub(g.val, [(b.var, P(r))]))]


def l_sort(eng, a, k):
    _mutable(eng, a[0])
    c = eng.cell(a[0])
    if c.base is not None:
        raise Unsupported("sort of a list the loop modifies")
    if len(c.segs) == 1 and c.segs[0].plain():
        return None
    segs = sorted_segs(eng, SeqV(c.segs), k.get("key"), k.get("reverse", False))
    if segs is None:
        raise Unsupported("list.sort")
    eng.put(a[0], ListV(segs, c.kind, c.base, False))


def b_sorted(eng, a, k):
    s = iterate(eng, a[0])
    if k.get("key") is not None and not s.linear:
        if len(s.segs) == 1 and s.segs[0].plain():
            return eng.new(ListV(s.segs))
        segs = sorted_segs(eng, s, k["key"], k.get("reverse", False))
        if segs is not None:
            return eng.new(ListV(segs))
    if all(g.plain() for g in s.segs) and all(isinstance(g.val, (int, str)) for g in s.segs) and not k:
        return eng.new(ListV([elem(x) for x in sorted(g.val for g in s.segs)]))
    return eng.new(ListV(s.segs, "list", unordered=True)) if not s.linear else _uns("sorted")


def _uns(w):
    raise Unsupported(w)


def b_dict(eng, a, k):
    r = eng.new(DictV())
    if a:
        if isinstance(a[0], Ref) and isinstance(eng.cell(a[0]), DictV):
            eng.put(r, eng.cell(a[0]).copy(kind="dict"))
        else:
            from . import loops
            from .interp import Scope
            fr = eng.new(ObjV("frame", {}))
            sc = Scope(None, (fr,))
            cur = {}

            def assign(v):
                cur["v"] = v

            def body():
                kv = eng.unpack(cur["v"], 2)
                setitem(eng, r, kv[0], kv[1])
            loops.run_for(eng, iterate(eng, a[0]), assign, body, sc)
    for kk, v in k.items():
        setitem(eng, r, kk, v)
    return r


def b_set(eng, a, k):
    if not a:
        return eng.new(ListV([], "set"))
    s = iterate(eng, a[0])
    if all(g.plain() for g in s.segs) and all(isinstance(g.val, (int, str)) for g in s.segs):
        return eng.new(ListV([elem(x) for x in dict.fromkeys(g.val for g in s.segs)], "set"))
    return eng.new(ListV(s.segs, "set", unordered=True))


def b_type(eng, a, k):
    v = a[0]
    if isinstance(v, Ref) and isinstance(eng.cell(v), ObjV):
        return eng.cell(v).cls
    return NModule("type")


def b_map(eng, a, k):
    from . import loops
    from .interp import Scope
    r = eng.new(ListV([]))
    fr = eng.new(ObjV("frame", {}))
    cur = {}

    def assign(v):
        cur["v"] = v
    loops.run_for(eng, iterate(eng, a[1]), assign, lambda: append(eng, r, eng.call(a[0], [cur["v"]])), Scope(None, (fr,)))
    return r


def b_tuple(eng, a, k):
    if not a:
        return ()
    s = iterate(eng, a[0])
    if all(g.plain() for g in s.segs):
        return tuple(g.val for g in s.segs)
    return to_list(eng, a[0], "tuple")


def b_reversed(eng, a, k):
    s = iterate(eng, a[0])
    if all(not g.binders for g in s.segs):
        return SeqV(list(reversed(s.segs)))
    r = reversed_segs(s.segs)
    if r is not None and not s.linear and not s.unordered:
        return SeqV(r)
    return eng.new(ListV(list(reversed(s.segs)), unordered=True))


def reversed_segs(segs):
    """The same elements from last to first, or None."""
    out = []
    for g in reversed(segs):
        if len(g.binders) > 1:
            return None
        if g.binders:
            b = g.binders[0]
            nb = freshi()
            m = [(b.var, z3.simplify(b.lo + b.hi - 1 - nb))]
            g = Seg([Binder(nb, b.lo, b.hi)], z3.simplify(subst(g.guard, m)), vsub(g.val, m))
        out.append(g)
    return out


POW2 = z3.Function("pow2", I, I)
LOG2 = z3.Function("log2", R, R)


def pow2_axioms():
    """Definition of the power of two on natural exponents."""
    k = z3.Int("qk")
    return [POW2(z3.IntVal(0)) == 1, z3.ForAll([k], z3.Implies(k >= 0, z3.And(POW2(k + 1) == 2 * POW2(k), POW2(k) >= 1)), patterns=[POW2(k)])]


def np_log2(eng, a, k):
    """Assumed contract of numpy.log2: floor(log2 r) is the exponent of the largest power of two <= r, for r >= 1."""
    if not isz(a[0]):
        raise Unsupported("log2")
    r = real(a[0])
    eng.assumed.add("numpy.log2: floor(log2(r)) is exact for 1 <= r < 2**47")
    p = z3.ToInt(LOG2(r))
    eng.aux_fact(z3.Implies(r >= 1, z3.And(LOG2(r) >= 0, p >= 0, z3.ToReal(POW2(p)) <= r, r < 2 * z3.ToReal(POW2(p)), POW2(p) >= 1)))
    return LOG2(r)


def deepcopy(eng, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        c = eng.cell(v)
        h = eng.copiers.get(c.cls) if isinstance(c, ObjV) and isinstance(c.cls, str) else None
        if h:
            r = h(eng, v, memo)
            memo[v.id] = r
            return r
        r = eng.new(c)
        memo[v.id] = r
        if isinstance(c, ListV):
            eng.put(r, ListV([Seg(s.binders, s.guard, deepcopy(eng, s.val, memo)) for s in c.segs], c.kind, c.base, c.unordered))
        elif isinstance(c, DictV):
            eng.put(r, c.copy(pieces=[Piece(p.binders, p.guard, p.key, deepcopy(eng, p.val, memo), p.mode) for p in c.pieces]))
        elif isinstance(c, ObjV):
            eng.put(r, ObjV(c.cls, {k: deepcopy(eng, x, memo) for k, x in c.fields.items()}))
        return r
    if isinstance(v, tuple):
        return tuple(deepcopy(eng, x, memo) for x in v)
    if isinstance(v, Rec):
        h = eng.rec_copiers.get(v.kind)
        if h:
            return h(eng, v, memo)
        return v
    return v


def m_floor(eng, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return math.floor(v)
    return v if v.sort() == I else z3.simplify(z3.ToInt(v))


def m_ceil(eng, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return math.ceil(v)
    return v if v.sort() == I else z3.simplify(-z3.ToInt(-v))


def np_zeros(eng, a, k):
    sh = a[0]
    if isinstance(sh, Ref):
        sh = tuple(eng.unpack(sh, 0, True))
    sh = tuple(num(x) for x in sh) if isinstance(sh, tuple) else (num(sh),)
    return eng.new(DictV([], "arr", shape=sh, dtype=k.get("dtype")))


def np_array(eng, a, k):
    v = a[0]
    if isinstance(v, Ref):
        c = eng.cell(v)
        if isinstance(c, DictV) and c.kind == "arr":
            return eng.new(c)
        if isinstance(c, ListV):
            if c.concrete() and all(is_num(s.val) for s in c.segs):
                return eng.new(DictV([Piece([], TRUE, (z3.IntVal(i),), s.val) for i, s in enumerate(c.segs)], "arr", shape=(z3.IntVal(len(c.segs)),)))
            if len(c.segs) == 1 and len(c.segs[0].binders) == 1 and z3.is_true(c.segs[0].guard) and is_num(c.segs[0].val):
                b = c.segs[0].binders[0]
                if z3.is_int_value(b.lo) and b.lo.as_long() == 0:
                    return eng.new(DictV([Piece([b], TRUE, (b.var,), c.segs[0].val)], "arr", shape=(b.hi,)))
    if isinstance(v, Rec):
        return v
    raise Unsupported("np.array(%r)" % (v,))


def install(eng):
    N = NativeV

    def nat(name, fn):
        return N(name, fn)
    eng.rec_handlers, eng.obj_handlers, eng.obj_ops, eng.obj_setters, eng.copiers, eng.rec_copiers, eng.arr_methods = {}, {}, {}, {}, {}, {}, {}
    eng.enum_classes = []
    eng.dexpr_types = ()
    eng.rec_isinstance = lambda v, t: _uns("isinstance of record %s" % v.kind)

    def pow2(y):
        eng.aux_fact(z3.Implies(y >= 0, POW2(y) >= 1))
        return POW2(y)
    eng.pow2 = pow2
    b = {
        "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "isinstance": b_isinstance, "issubclass": b_issubclass, "abs": b_abs,
        "sum": lambda e, a, k: seq_sum(e, a[0], a[1] if len(a) > 1 else k.get("start", 0)),
        "any": lambda e, a, k: seq_exists(e, a[0], True), "all": lambda e, a, k: seq_exists(e, a[0], False),
        "min": lambda e, a, k: extremum(e, a, k, False), "max": lambda e, a, k: extremum(e, a, k, True),
        "sorted": b_sorted, "type": b_type, "map": b_map, "reversed": b_reversed, "id": lambda e, a, k: _uns("id"),
        "print": lambda e, a, k: None, "iter": lambda e, a, k: iterate(e, a[0]), "next": lambda e, a, k: _uns("next"),
        "getattr": lambda e, a, k: e.getattr(a[0], a[1]), "hasattr": lambda e, a, k: _uns("hasattr"),
        "callable": lambda e, a, k: isinstance(a[0], (FuncV, NativeV, BoundV)), "repr": lambda e, a, k: StrV([UNKNOWN]),
        "round": lambda e, a, k: round(a[0]) if isinstance(a[0], (int, float)) and len(a) == 1 else _uns("round"),
        "pow": lambda e, a, k: binop(e, ast.Pow(), a[0], a[1]), "divmod": lambda e, a, k: _uns("divmod"),
        "filter": lambda e, a, k: _uns("filter"),
    }
    eng.builtins = {n: N("", f) for n, f in b.items()}
    types = {"int": b_int, "float": b_float, "str": b_str, "bool": lambda e, a, k: truthy(e, a[0]) if a else False,
             "list": lambda e, a, k: to_list(e, a[0]) if a else e.new(ListV([])), "tuple": b_tuple,
             "dict": b_dict, "set": b_set, "frozenset": b_set, "object": None, "complex": None, "bytes": None}
    for n, f in types.items():
        eng.builtins[n] = NType(n, f)
    for n in ("Exception", "ValueError", "TypeError", "KeyError", "IndexError", "NotImplementedError", "RuntimeError", "AttributeError",
              "ImportError", "AssertionError", "ZeroDivisionError", "LookupError", "StopIteration"):
        eng.builtins[n] = NType(n, (lambda n: lambda e, a, k: ExcV(n, tuple(a)))(n))
    eng.builtins["NotImplemented"] = NModule("NotImplemented")
    eng.builtins["True"], eng.builtins["False"], eng.builtins["None"] = True, False, None
    eng.builtins["property"] = NModule("property")
    nn = eng.natives
    for name, fn in {
        "copy.deepcopy": lambda e, a, k: deepcopy(e, a[0]),
        "math.floor": m_floor, "math.ceil": m_ceil, "math.fsum": lambda e, a, k: seq_sum(e, a[0]),
        "typing.cast": lambda e, a, k: a[1],
        "numpy.zeros": np_zeros, "numpy.array": np_array, "numpy.asarray": np_array,
        "numpy.log2": np_log2,
        "numpy.abs": b_abs, "numpy.floor": lambda e, a, k: real(m_floor(e, a, k)) if isz(a[0]) else float(math.floor(a[0])),
        "numpy.isclose": lambda e, a, k: _uns("isclose"),
        "numpy.sum": lambda e, a, k: seq_sum(e, a[0]),
        "logging.getLogger": lambda e, a, k: NOOP,
        "warnings.warn": lambda e, a, k: None,
        "qiskit_optimization.optionals.HAS_CPLEX": None,
    }.items():
        if fn is not None:
            nn.setdefault(name, N(name, fn))
    for name in ("numpy.ndarray", "scipy.sparse.spmatrix", "scipy.sparse.dok_matrix", "numpy.float64", "numpy.integer", "numbers.Number"):
        nn.setdefault(name, NType(name))
    nn.setdefault("numpy.pi", z3.Real("pi"))
    nn.setdefault("numpy.inf", float("inf"))
    nn.setdefault("math.inf", float("inf"))
    nn.setdefault("math.isclose", N("math.isclose", lambda e, a, k: _uns("isclose")))

    def defaultdict(e, a, k):
        f = a[0] if a else None
        d = f
        if isinstance(f, NType) and f.name in ("int", "float"):
            d = 0
        elif isinstance(f, FuncV):
            v = e.call(f, [])
            d = 0 if is_zero(v) else f
        return e.new(DictV([], "defaultdict", default=d))
    nn.setdefault("collections.defaultdict", NType("collections.defaultdict", defaultdict))
