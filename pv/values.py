"""Symbolic values of the executor."""
import z3

from .terms import *


class Unsupported(Exception):
    """The code uses something outside the verified subset: the function falls back to its bounded check."""


class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return "<ref %d>" % self.id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))


class Seg:
    """Elements `val` for all values of the binders satisfying guard (in lexicographic order of the binders)."""
    __slots__ = ("binders", "guard", "val")

    def __init__(self, binders, guard, val):
        self.binders, self.guard, self.val = list(binders), guard, val

    def plain(self):
        return not self.binders and z3.is_true(self.guard)

    def __repr__(self):
        return "Seg(%s, %s, %s)" % (self.binders, self.guard, self.val)


TRUE = z3.BoolVal(True)


def elem(v):
    return Seg([], TRUE, v)


class ListV:
    """Content of a list cell (also tuples of unknown length, sets when kind='set')."""
    __slots__ = ("segs", "kind", "base", "unordered")

    def __init__(self, segs, kind="list", base=None, unordered=False):
        self.segs, self.kind, self.base, self.unordered = list(segs), kind, base, unordered

    def concrete(self):
        return self.base is None and all(s.plain() for s in self.segs)

    def __repr__(self):
        return "ListV(%s%s)" % (self.segs, " base" if self.base else "")


class Piece:
    """For all values of the binders with guard: key -> val (mode 'set': no two pieces/instances share a key; 'add': they add up)."""
    __slots__ = ("binders", "guard", "key", "val", "mode")

    def __init__(self, binders, guard, key, val, mode="set"):
        self.binders, self.guard, self.key, self.val, self.mode = list(binders), guard, key, val, mode

    def __repr__(self):
        return "Piece(%s,%s,%s->%s,%s)" % (self.binders, self.guard, self.key, self.val, self.mode)


class DictV:
    """kind: dict | defaultdict | arr (total, zero default, shape) | dok."""
    __slots__ = ("pieces", "kind", "shape", "base", "default", "dtype", "frozen")

    def __init__(self, pieces=(), kind="dict", shape=None, base=None, default=None, dtype=None):
        self.frozen = False
        self.pieces, self.kind, self.shape, self.base, self.default, self.dtype = list(pieces), kind, shape, base, default, dtype

    def copy(self, **kw):
        d = DictV(self.pieces, self.kind, self.shape, self.base, self.default, self.dtype)
        for k, v in kw.items():
            setattr(d, k, v)
        return d

    def __repr__(self):
        return "DictV(%s %s%s)" % (self.kind, self.pieces, " base%s" % self.base if self.base else "")


class ObjV:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields=None):
        self.cls, self.fields = cls, dict(fields or {})

    def __repr__(self):
        return "ObjV(%s)" % (self.cls,)


class Rec:
    """Immutable symbolic record with identity `ident` (a tuple of values); attributes in `attrs`, behaviour by kind."""
    __slots__ = ("kind", "attrs", "ident")

    def __init__(self, kind, attrs, ident=None):
        self.kind, self.attrs, self.ident = kind, attrs, ident

    def __repr__(self):
        return "Rec(%s,%s)" % (self.kind, self.ident if self.ident is not None else self.attrs)


class EnumV:
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return "%s.%s" % (self.cls, self.name)

    def __eq__(self, o):
        return isinstance(o, EnumV) and (o.cls, o.name) == (self.cls, self.name)

    def __hash__(self):
        return hash((self.cls, self.name))


class SymEnum:
    """Symbolic member of an enum: term is its value (Int)."""
    __slots__ = ("cls", "term")

    def __init__(self, cls, term):
        self.cls, self.term = cls, term

    def __repr__(self):
        return "SymEnum(%s,%s)" % (self.cls, self.term)


class FuncV:
    __slots__ = ("node", "frame", "module", "cls", "defaults", "kwdefaults", "qual")

    def __init__(self, node, frame, module, cls=None, defaults=(), kwdefaults=None, qual=""):
        self.node, self.frame, self.module, self.cls = node, frame, module, cls
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults or {}, qual


class BoundV:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class ClassV:
    __slots__ = ("name", "node", "module", "bases", "members", "enum")

    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases, self.members, self.enum = [], {}, False

    def __repr__(self):
        return "<class %s>" % self.name


class NativeV:
    """Modelled external function (an assumed contract)."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<native %s>" % self.name


class NType:
    """External type used in isinstance / constructor calls."""
    __slots__ = ("name", "ctor")

    def __init__(self, name, ctor=None):
        self.name, self.ctor = name, ctor

    def __repr__(self):
        return "<type %s>" % self.name


class NModule:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<module %s>" % self.name


class NoOp:
    def __repr__(self):
        return "<noop>"


NOOP = NoOp()


class Poison:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<poison %s>" % self.why


class SeqV:
    """Iterable produced by items()/enumerate()/range()...: segs, plus whether values may only be used linearly."""
    __slots__ = ("segs", "linear", "unordered")

    def __init__(self, segs, linear=False, unordered=False):
        self.segs, self.linear, self.unordered = list(segs), linear, unordered


class DExpr:
    """docplex expression: its value at the generic point (maybe: it may still be the number the sum started from)."""
    __slots__ = ("term", "maybe")

    def __init__(self, term, maybe=False):
        self.term, self.maybe = term, maybe

    def __repr__(self):
        return "DExpr(%s)" % self.term


class DCons:
    __slots__ = ("lhs", "sense", "rhs", "maybe")

    def __init__(self, lhs, sense, rhs, maybe=False):
        self.lhs, self.sense, self.rhs, self.maybe = lhs, sense, rhs, maybe

    def __repr__(self):
        return "DCons(%s %s %s)" % (self.lhs, self.sense, self.rhs)


class StrV:
    """A string under construction: literal parts (str), names (z3 Name terms) and printed integers (z3 Int terms)."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "StrV%s" % (self.parts,)


class ExcV:
    """Python exception value."""
    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "Exc(%s)" % self.cls


def sub_function(f, m):
    """The function with index constants in its result (not in its arguments) substituted."""
    def g(*args):
        ph = [z3.FreshConst(a.sort(), "ph") if isz(a) else None for a in args]
        r = vsub(f(*[a if p is None else p for p, a in zip(ph, args)]), m)
        return vsub(r, [(p, a) for p, a in zip(ph, args) if p is not None])
    return g


def vsub(v, m):
    """Substitute index constants in a value."""
    if not m:
        return v
    if isz(v):
        return subst(v, m)
    if isinstance(v, tuple):
        return tuple(vsub(x, m) for x in v)
    if isinstance(v, Rec):
        return Rec(v.kind, {k: sub_function(x, m) if callable(x) and type(x).__name__ == "function" else vsub(x, m) for k, x in v.attrs.items()}, vsub(v.ident, m) if v.ident is not None else None)
    if isinstance(v, SymEnum):
        return SymEnum(v.cls, subst(v.term, m))
    if isinstance(v, DExpr):
        return DExpr(subst(v.term, m), v.maybe)
    if isinstance(v, StrV):
        return StrV([vsub(x, m) for x in v.parts])
    if isinstance(v, DCons):
        return DCons(subst(v.lhs, m), v.sense, subst(v.rhs, m), v.maybe)
    if isinstance(v, Seg):
        return Seg([b.sub(m) for b in v.binders], subst(v.guard, m), vsub(v.val, m))
    if isinstance(v, ListV):
        return ListV([vsub(s, m) for s in v.segs], v.kind, v.base, v.unordered)
    if isinstance(v, Piece):
        return Piece([b.sub(m) for b in v.binders], subst(v.guard, m), vsub(v.key, m), vsub(v.val, m), v.mode)
    if isinstance(v, DictV):
        return v.copy(pieces=[vsub(p, m) for p in v.pieces], shape=vsub(v.shape, m) if v.shape else v.shape)
    if isinstance(v, SeqV):
        return SeqV([vsub(s, m) for s in v.segs], v.linear, v.unordered)
    if isinstance(v, ObjV):
        return ObjV(v.cls, {k: vsub(x, m) for k, x in v.fields.items()})
    if isinstance(v, FuncV) and (v.defaults or v.kwdefaults):
        return FuncV(v.node, v.frame, v.module, v.cls, [vsub(x, m) for x in v.defaults], {k: vsub(x, m) for k, x in v.kwdefaults.items()}, v.qual)
    if isinstance(v, BoundV):
        return BoundV(vsub(v.func, m), vsub(v.self, m))
    return v


def refresh(binders, *vals):
    """Rename binders to fresh ones; returns (binders, vals...)."""
    m = [(b.var, freshi("i")) for b in binders]
    nb = []
    for k, b in enumerate(binders):
        nb.append(Binder(m[k][1], subst(b.lo, m), subst(b.hi, m)))
    return (nb,) + tuple(vsub(v, m) for v in vals)


def vfree(v, acc=None):
    """Free constants of a value."""
    acc = {} if acc is None else acc
    if isz(v):
        for c in free_consts(v):
            acc[c.get_id()] = c
    elif isinstance(v, (tuple, list)):
        for x in v:
            vfree(x, acc)
    elif isinstance(v, Rec):
        for x in v.attrs.values():
            vfree(x, acc)
        if v.ident is not None:
            vfree(v.ident, acc)
    elif isinstance(v, SymEnum):
        vfree(v.term, acc)
    elif isinstance(v, DExpr):
        vfree(v.term, acc)
    elif isinstance(v, DCons):
        vfree(v.lhs, acc), vfree(v.rhs, acc)
    elif isinstance(v, StrV):
        vfree(v.parts, acc)
    elif isinstance(v, Seg):
        vfree(v.guard, acc), vfree(v.val, acc)
        for b in v.binders:
            vfree(b.lo, acc), vfree(b.hi, acc)
    elif isinstance(v, (ListV, SeqV)):
        for s in v.segs:
            vfree(s, acc)
    elif isinstance(v, Piece):
        vfree(v.guard, acc), vfree(v.key, acc), vfree(v.val, acc)
        for b in v.binders:
            vfree(b.lo, acc), vfree(b.hi, acc)
    elif isinstance(v, DictV):
        for p in v.pieces:
            vfree(p, acc)
    elif isinstance(v, ObjV):
        for x in v.fields.values():
            vfree(x, acc)
    return acc
