"""While loops with inferred havoc sets and equalities.

The loop's effect is that of its first iteration, or of one iteration from an arbitrary later state: everything an iteration that comes
round again can modify (found by executing the body from the arbitrary state until nothing new is modified) is arbitrary there, except
for equalities between locations which hold after every first iteration and are preserved by every iteration (others are dropped).
Exits (test false, break, return, raise) continue; coming round again is covered by the arbitrary state.
"""
import z3
from .terms import *
from .values import *
from . import lib, norm
from .loops import _mods
from .interp import BreakEx, ContinueEx, Infeasible


def holds(eng, s, sc):
    c = lib.truthy(eng, eng.eval(s.test, sc))
    return c if isinstance(c, bool) else eng.branch(c)


def sort_of(v):
    if isinstance(v, bool):
        return B
    if isinstance(v, int):
        return I
    if isinstance(v, float):
        return R if v == v and abs(v) != float("inf") else None
    return v.sort() if isz(v) else None


def join(vs):
    """An arbitrary value of the kind of these."""
    sorts = {sort_of(v) for v in vs}
    if None not in sorts:
        if sorts <= {I, R}:
            return lambda eng: lib.skolem(eng, "hav", R if R in sorts else I)
        if len(sorts) == 1:
            return lambda eng: lib.skolem(eng, "hav", next(iter(sorts)))
    v = vs[0]
    if all(isinstance(w, Rec) and w.kind == v.kind and w.attrs.keys() == v.attrs.keys() for w in vs) and isinstance(v, Rec):
        parts = {k: join([w.attrs[k] for w in vs]) if any(sort_of(w.attrs[k]) is not None for w in vs) else None for k in v.attrs}
        same = all(parts[k] is not None or all(w.attrs[k] is v.attrs[k] for w in vs) for k in parts)
        if same:
            def make(eng):
                at = {k: f(eng) if f else v.attrs[k] for k, f in parts.items()}
                return Rec(v.kind, at, (v.kind,) + tuple(x for x in at.values() if isz(x)))
            return make
    return lambda eng: Poison("carried round a while loop")


def scalars(cells, units):
    """Comparable locations of the modified units: location -> term."""
    out = {}
    for cid, f in units:
        if f is None or not isinstance(cells.get(cid), ObjV) or f not in cells[cid].fields:
            continue
        v = cells[cid].fields[f]
        if sort_of(v) is not None:
            out[cid, f, None] = v
        elif isinstance(v, Rec):
            for k, w in v.attrs.items():
                if sort_of(w) is not None:
                    out[cid, f, k] = w
    return out


def equal(a, b):
    sa, sb = sort_of(a), sort_of(b)
    if sa == sb and sa not in (I, R):
        return lib.tobool(a) == lib.tobool(b) if sa == B and hasattr(lib, "tobool") else (z3.BoolVal(a) if isinstance(a, bool) else a) == (z3.BoolVal(b) if isinstance(b, bool) else b)
    if {sa, sb} <= {I, R}:
        return real(lib.num(a)) == real(lib.num(b))
    return None


def entailed(eng, pc, p, e):
    """On this path, from its quantifier-free facts."""
    e = z3.simplify(e)
    if z3.is_true(e) or z3.is_false(e):
        return z3.is_true(e)
    fs = [f for f in eng.facts + pc + p.pc if not z3.is_quantifier(f)]
    if getattr(p, "example", None) is None:
        sv = z3.Solver()
        sv.set("timeout", 500)
        sv.add(fs)
        p.example = sv.model() if sv.check() == z3.sat else False
    if p.example is not False and z3.is_false(p.example.eval(e, model_completion=True)):
        return False
    return norm.check(fs + [z3.Not(e)], 600)[0] == z3.unsat


def unchanged(eng, pc, H, p, u):
    a, b = scalars(H, [u]), scalars(p.cells, [u])
    if not a or a.keys() != b.keys():
        return False
    old, new = H[u[0]].fields[u[1]], p.cells[u[0]].fields[u[1]]
    if isinstance(old, Rec) and (not isinstance(new, Rec) or old.kind != new.kind or any(v is not new.attrs.get(k) for k, v in old.attrs.items() if (u[0], u[1], k) not in a)):
        return False
    return all(isz(a[k]) and isz(b[k]) and a[k].sort() == b[k].sort() and entailed(eng, pc, p, a[k] == b[k]) for k in a)


def rule(eng, s, sc):
    if not holds(eng, s, sc):
        return True

    def once():
        try:
            eng.block(s.body, sc)
        except ContinueEx:
            pass
        return "again" if holds(eng, s, sc) else "exit"

    key = (id(s), eng.xid, tuple(eng.dec[:eng.dpos])) if eng.steady else None
    hit = eng.while_cache.get(key) if key else None
    if hit:          # the same path, executed again: its state (up to names) as it was when the loop was analysed
        S0, pc0, nxt, later, H, inv = hit
        eng.cells, eng.pc, eng.next = dict(S0), list(pc0), max(nxt, eng.next)
        return proceed(eng, s, sc, once, later, H, inv)
    S0, pc0, limit = dict(eng.cells), list(eng.pc), eng.next
    later, H, inv = False, None, []
    eng.analysing = getattr(eng, "analysing", 0) + 1
    try:
        again = [p for p in eng.explore(once) if p.out == "normal" and p.val == "again"]
        if again:
            later = True
            units = set()
            for p in again:
                units |= _mods(S0, p.cells, limit)
            first = again
            seen = list(again)          # states at the head from which kinds of values are read
            dropped, sure = set(), set()
            for _ in range(30):
                H = dict(S0)
                for cid, f in sorted(units, key=str):
                    if f is None:
                        H[cid] = ObjV("Opaque", {})
                        continue
                    vs = [p.cells[cid].fields[f] for p in seen if isinstance(p.cells[cid], ObjV) and f in p.cells[cid].fields]
                    c = H[cid]
                    H[cid] = ObjV(c.cls, dict(c.fields, **{f: join(vs)(eng)}))
                at_first = [scalars(p.cells, units) for p in first]
                at_head = scalars(H, units)
                locs = [l for l in at_head if all(l in a for a in at_first)]
                pairs = []
                for i, l in enumerate(locs):
                    for m in locs[:i]:
                        if (l, m) in dropped or (l[0], l[1]) == (m[0], m[1]):
                            continue
                        eqs = [equal(a[l], a[m]) for a in at_first]
                        if any(e is None for e in eqs):
                            continue
                        if (l, m) not in sure and not all(entailed(eng, pc0, p, e) for p, e in zip(first, eqs)):
                            dropped.add((l, m))
                            continue
                        sure.add((l, m))
                        pairs.append((l, m))
                inv = [equal(at_head[l], at_head[m]) for l, m in pairs]
                eng.cells, eng.pc = dict(H), pc0 + inv

                def from_head():
                    if not holds(eng, s, sc):
                        raise Infeasible()
                    return once()
                try:
                    ps = [p for p in eng.explore(from_head) if p.out == "normal" and p.val == "again"]
                finally:
                    eng.cells, eng.pc = S0, pc0
                more = set()
                for p in ps:
                    more |= {u for u in _mods(H, p.cells, limit) - units if not unchanged(eng, pc0 + inv, H, p, u)}
                kinds = [p for p in ps if any(type_of(p, u) != type_of(seen[0], u) for u in units)]
                if more or [p for p in kinds if p not in seen] and len(seen) < len(first) + 1:
                    units |= more
                    seen = first + kinds[:20]
                    continue
                bad = set()
                for p in ps:
                    sc_ = scalars(p.cells, units)
                    for l, m in pairs:
                        if (l, m) in bad:
                            continue
                        e = equal(sc_[l], sc_[m]) if l in sc_ and m in sc_ else None
                        if e is None or not z3.is_true(z3.simplify(e)) and norm.check(eng.facts + pc0 + inv + p.pc + [z3.Not(e)], 1500)[0] != z3.unsat:
                            bad.add((l, m))
                if not bad:
                    break
                dropped |= bad
            else:
                raise Unsupported("while loop: no invariant")
    finally:
        eng.analysing -= 1
        eng.cells, eng.pc = dict(S0), list(pc0)
    if key:
        eng.while_cache[key] = (S0, pc0, eng.next, later, H, inv)
    return proceed(eng, s, sc, once, later, H, inv)


def proceed(eng, s, sc, once, later, H, inv):
    if later and eng.branch(lib.skolem(eng, "later", B)):
        eng.cells = dict(H)
        for f in inv:
            eng.aux_fact(f)
        if not holds(eng, s, sc):
            raise Infeasible()
    try:
        r = once()
    except BreakEx:
        return True
    if r == "again":
        raise Infeasible()
    return True


def type_of(p, u):
    cid, f = u
    c = p.cells.get(cid)
    if f is None or not isinstance(c, ObjV) or f not in c.fields:
        return None
    v = c.fields[f]
    return (type(v).__name__ if not isz(v) else "term", sort_of(v) if isz(v) else getattr(v, "kind", None))


def install(eng):
    eng.while_hooks.append(rule)
    eng.while_cache, eng.steady = {}, True
    h = eng.obj_handlers
    for m in ("append", "add", "extend", "update", "sort", "clear", "discard"):
        h["Opaque", m] = lambda e, a, k: None
    eng.obj_ops["Opaque", "__contains__"] = lambda e, a, k: lib.skolem(e, "member", B)
    eng.obj_ops["Opaque", "__setitem__"] = lambda e, a, k: None

    def size(e, a, k):
        n = lib.skolem(e, "size", I)
        e.aux_fact(n >= 0)
        return n
    h["Opaque", "__len__"] = eng.obj_ops["Opaque", "__len__"] = size
