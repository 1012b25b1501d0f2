"""Terms: scalars are z3 terms; a summarised loop's sum is an application of a fresh function with a definition.

mk_sum(binders, guard, body): the sum of `body` over all values of the binders in their ranges at which `guard` holds.
The result is S_k(params), params being the free index constants of the definition; alpha-equivalent definitions share S_k.
mk_exists(binders, guard): the same for "some values of the binders satisfy guard".
"""
import itertools
import z3

# 'V(i)' name of variable i of the input program, 'L(i)'/'Q(i)' names of its constraints,
# 'ext(base, tag, k)' a name derived from another one, 'lit(k)' a string literal, 'g(k)' other given names
Name = z3.Datatype("Name")
Name.declare("V", ("vprog", z3.IntSort()), ("vi", z3.IntSort()))
Name.declare("LN", ("li", z3.IntSort()))
Name.declare("QN", ("qi", z3.IntSort()))
Name.declare("ext", ("base", Name), ("tag", z3.IntSort()), ("k", z3.IntSort()))
Name.declare("lit", ("litk", z3.IntSort()))
Name.declare("fmt", ("ftag", z3.IntSort()), ("fa", z3.IntSort()), ("fb", z3.IntSort()))
Name.declare("slk", ("stok", z3.IntSort()), ("si", z3.IntSort()))
Name = Name.create()

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
_ctr = itertools.count()
STRTAB = []


def strtag(s):
    if s not in STRTAB:
        STRTAB.append(s)
    return STRTAB.index(s)


def litname(s):
    return Name.lit(strtag(s))


def fresh(prefix, sort):
    return z3.Const("%s!%d" % (prefix, next(_ctr)), sort)


def freshi(prefix="i"):
    return fresh(prefix, I)


class Binder:
    """An index constant with its half-open range."""
    __slots__ = ("var", "lo", "hi")

    def __init__(self, var, lo, hi):
        self.var, self.lo, self.hi = var, lo, hi

    def range(self):
        return z3.And(self.lo <= self.var, self.var < self.hi)

    def sub(self, m):
        return Binder(self.var, subst(self.lo, m), subst(self.hi, m))

    def __repr__(self):
        return "%s in [%s,%s)" % (self.var, self.lo, self.hi)


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    return v


def isz(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return (isinstance(v, (int, float)) and not isinstance(v, bool)) or (isz(v) and v.sort() in (R, I))


def real(v):
    """Any scalar as a Real term."""
    if isinstance(v, bool):
        return z3.RealVal(1 if v else 0)
    if isinstance(v, (int, float)):
        if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
            raise ValueError("inf/nan")
        return z3.RealVal(repr(v) if isinstance(v, float) else v) if not isinstance(v, float) else z3.RealVal(str(__import__("fractions").Fraction(v)))
    if v.sort() == I:
        if z3.is_int_value(v):
            return z3.RealVal(v.as_long())
        return z3.ToReal(v)
    if v.sort() == B:
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    return v


def subst(e, m):
    """m: list of (from const, to term)."""
    if not isz(e) or not m:
        return e
    return z3.substitute(e, *m)


_free_cache = {}


def free_consts(e, acc=None):
    """Uninterpreted 0-ary constants of a term."""
    key = e.get_id()
    if key in _free_cache and _free_cache[key][0].eq(e):
        return _free_cache[key][1]
    out, seen, stack = {}, set(), [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[t.get_id()] = t
            stack.extend(t.children())
    res = list(out.values())
    _free_cache[key] = (e, res)
    return res


def occurs(c, e):
    return any(c.eq(x) for x in free_consts(e))


SUMS = {}     # decl name -> (params, binders, guard, body)
EXISTS = {}   # decl name -> (params, binders, guard)
_canon = {}
GLOBALS = set()   # names of constants that are never bound by a loop (sizes, parameters): not lambda-lifted


def is_index(c):
    """Constants that a loop may bind (generic indices): created by freshi."""
    return "!" in c.decl().name() and c.sort() == I and c.decl().name() not in GLOBALS


def _key(binders, guard, bodies):
    """Alpha-canonical text of a definition and its ordered parameters."""
    bvars = [b.var for b in binders]
    parts = [guard] + bodies
    for b in binders:
        parts += [b.lo, b.hi]
    free = []
    for p in parts:
        for c in sorted(free_consts(p), key=lambda c: c.decl().name()):
            if is_index(c) and not any(c.eq(v) for v in bvars) and not any(c.eq(f) for f in free):
                free.append(c)
    # order of parameters: first occurrence in the printed text
    text0 = "|".join(z3.simplify(p).sexpr() for p in parts)
    free.sort(key=lambda c: (text0.find(c.decl().name()), c.decl().name()))
    m = [(v, z3.Const("?b%d" % k, v.sort())) for k, v in enumerate(bvars)]
    m += [(c, z3.Const("?p%d" % k, c.sort())) for k, c in enumerate(free)]
    text = "|".join(z3.simplify(subst(p, m)).sexpr() for p in parts)
    return text, free


def in_range(binders, t):
    """t simplified under the ranges of the binders."""
    m = []
    for b in binders:
        if b.var.sort() == I:
            m += [(z3.simplify(b.lo <= b.var), z3.BoolVal(True)), (z3.simplify(b.hi <= b.var), z3.BoolVal(False))]
    m = [x for x in m if not z3.is_true(x[0]) and not z3.is_false(x[0])]
    return z3.simplify(z3.substitute(t, *m)) if m else t


def mk_sum(binders, guard, body):
    body = in_range(binders, z3.simplify(real(body)))
    guard = in_range(binders, z3.simplify(guard))
    if z3.is_false(guard) or (z3.is_rational_value(body) and body.as_fraction() == 0):
        return z3.RealVal(0)
    if not binders:
        return body if z3.is_true(guard) else z3.If(guard, body, z3.RealVal(0))
    text, free = _key(binders, guard, [body])
    if ("S", text) not in _canon:
        f = z3.Function("S_%d" % len(SUMS), *([c.sort() for c in free] + [R])) if free else z3.Const("S_%d" % len(SUMS), R)
        _canon["S", text] = f
        name = f.name() if free else f.decl().name()
        SUMS[name] = (free, binders, guard, body)
    f = _canon["S", text]
    return f(*free) if free else f


def mk_exists(binders, guard):
    guard = z3.simplify(guard)
    if z3.is_false(guard):
        return z3.BoolVal(False)
    if not binders:
        return guard
    text, free = _key(binders, guard, [])
    if ("E", text) not in _canon:
        f = z3.Function("E_%d" % len(EXISTS), *([c.sort() for c in free] + [B])) if free else z3.Const("E_%d" % len(EXISTS), B)
        _canon["E", text] = f
        EXISTS[f.name() if free else f.decl().name()] = (free, binders, guard)
    f = _canon["E", text]
    return f(*free) if free else f


def POST(x):
    """Hook: container reads inside a definition are replaced by their values (set by lib)."""
    return x


def open_def(app, table):
    """(binders, guard, body...) of an application with fresh binders and instantiated parameters."""
    d = table[app.decl().name()]
    params, binders = d[0], d[1]
    m = list(zip(params, app.children()))
    fb = [(b.var, fresh("b", b.var.sort())) for b in binders]
    m += fb
    nb = [Binder(dict((x.get_id(), y) for x, y in fb)[b.var.get_id()], subst(b.lo, m), subst(b.hi, m)) for b in binders]
    return (nb,) + tuple(POST(subst(x, m)) for x in d[2:])


def sum_apps(e, table):
    out, seen, stack = [], set(), [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in table:
                out.append(t)
            stack.extend(t.children())
    return out


def band(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return z3.BoolVal(False)
            continue
        if z3.is_true(x):
            continue
        ys.append(x)
    return z3.And(*ys) if len(ys) > 1 else (ys[0] if ys else z3.BoolVal(True))


def bor(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return z3.BoolVal(True)
            continue
        if z3.is_false(x):
            continue
        ys.append(x)
    return z3.Or(*ys) if len(ys) > 1 else (ys[0] if ys else z3.BoolVal(False))


def bnot(x):
    if isinstance(x, bool):
        return not x
    return z3.simplify(z3.Not(x))
