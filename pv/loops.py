"""Loop rules: a loop over a summarised sequence is replaced by its effect, derived from one generic iteration.

The generic iteration starts from placeholders for everything the body may modify.  An effect is accepted only if it is
  - additive in a scalar (the placeholder occurs with coefficient 1)           -> a sum over the index range
  - an append to a list                                                       -> a new segment
  - an additive update / a write with provably injective keys of a dict/array -> a new piece
  - the constant assignment of a flag                                         -> an existential
  - a raise / a return / a break under a condition                            -> a fork on the existential
anything else is Unsupported (or poisons the variable, if it is never read again).
"""
import z3

from .terms import *
from .values import *
from . import norm
from .interp import ReturnEx, BreakEx, ContinueEx, RaiseEx, Infeasible
from . import lib


def run_for(eng, seq, assign, body, sc):
    for h in eng.loop_hooks:
        if h(eng, seq, assign, body, sc):
            return False
    if seq.unordered and (len(seq.segs) > 1 or seq.unordered is True):
        pre = dict(eng.cells)
        try:
            return _run_for(eng, seq, assign, body, sc)
        finally:
            for cid, c in pre.items():
                d = eng.cells.get(cid)
                if d is not c and isinstance(d, ListV) and d.unordered is not True:
                    eng.cells[cid] = ListV(d.segs, d.kind, d.base, lib.less_ordered(d.unordered, seq.unordered))
    return _run_for(eng, seq, assign, body, sc)


def _run_for(eng, seq, assign, body, sc):
    for seg in seq.segs:
        if not seg.binders:
            if z3.is_true(seg.guard) or eng.branch(seg.guard):
                if seq.linear:
                    raise Unsupported("linear sequence with concrete elements")
                try:
                    assign(lib.materialise(eng, seg.val))
                    body()
                except ContinueEx:
                    pass
                except BreakEx:
                    return True
        else:
            if summarise(eng, seg, assign, body, sc, seq.linear):
                return True
    return False


def maybe_number(v):
    return v.maybe if isinstance(v, DExpr) else True


class _Tok:
    pass


def _same(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isinstance(a, (int, float, str, bool, type(None))) and isinstance(b, (int, float, str, bool, type(None))):
        return type(a) is type(b) and a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.FuncDeclRef) and isinstance(b, z3.FuncDeclRef):
        return a.eq(b)
    if isinstance(a, Rec) and isinstance(b, Rec) and a.kind == b.kind and a.attrs.keys() == b.attrs.keys():
        return all(_same(a.attrs[x], b.attrs[x]) for x in a.attrs)
    return False


def _mods(pre, post, limit):
    """Modified units of pre-existing cells."""
    out = set()
    for cid, c in pre.items():
        if cid >= limit:
            continue
        d = post.get(cid)
        if d is c:
            continue
        if isinstance(c, ObjV):
            for k in set(c.fields) | set(d.fields):
                if k not in c.fields or k not in d.fields or not _same(c.fields[k], d.fields[k]):
                    out.add((cid, k))
        else:
            out.add((cid, None))
    return out


def _isnum(v):
    return is_num(v)


def summarise(eng, seg, assign, body, sc, linear):
    nb, guard, val = refresh(seg.binders, seg.guard, seg.val)
    lin_map = []
    if linear:
        # values of a non-unique additive dict: only linear use is sound; stand-in symbol for the value
        if not (isinstance(val, tuple) and len(val) == 2):
            if isz(val):
                u = lib.skolem(eng, "lin", R, [b.var for b in nb])
                lin_map = [(u, real(val))]
                val = u
            else:
                raise Unsupported("iteration over an additive dict")
        else:
            u = lib.skolem(eng, "lin", R, [b.var for b in nb])
            lin_map = [(u, real(val[1]))]
            val = (val[0], u)
    limit = eng.next
    pre0 = eng.cells
    ranges = [b.range() for b in nb]
    hyp = ranges + ([] if z3.is_true(guard) else [guard])
    if not eng.feasible(band(*hyp)):
        return False
    modified, sorts, dexprs = set(), {}, set()
    n_obl = len(eng.obls)
    for _ in range(8):
        phs = {}
        cells = dict(pre0)
        for (cid, f) in modified:
            c = cells[cid]
            if f is None:
                t = _Tok()
                phs[cid, f] = t
                cells[cid] = ListV([], c.kind, base=t, unordered=c.unordered) if isinstance(c, ListV) else c.copy(pieces=[], base=t)
            else:
                init = c.fields.get(f, Poison("unassigned"))
                if isinstance(init, bool) or isz(init) and init.sort() == B:
                    ph = fresh("ph", B)
                elif (cid, f) in dexprs:
                    ph = DExpr(fresh("ph", R))
                elif _isnum(init):
                    so = sorts[cid, f] if (cid, f) in sorts else (I if isinstance(init, int) or isz(init) and init.sort() == I else R)
                    sorts[cid, f] = so
                    ph = fresh("ph", so)
                elif isinstance(init, DExpr):
                    ph = DExpr(fresh("ph", R))
                else:
                    ph = Poison("carried over loop iterations")
                phs[cid, f] = ph
                fl = dict(c.fields)
                fl[f] = ph
                cells[cid] = ObjV(c.cls, fl)
        del eng.obls[n_obl:]
        saved_pc = eng.pc
        eng.cells = cells
        eng.pc = eng.pc + hyp
        eng.binders.extend(b.var for b in nb)

        def thunk():
            assign(lib.materialise(eng, val))
            body()
        try:
            paths = eng.explore(thunk)
        finally:
            eng.cells, eng.pc = pre0, saved_pc
            del eng.binders[len(eng.binders) - len(nb):]
        new = set()
        redo = False
        for p in paths:
            if p.out == "raise":
                continue
            for u in _mods(cells, p.cells, limit):
                new.add(u)
                if u in sorts and u not in dexprs and isinstance(p.cells[u[0]].fields.get(u[1]) if u[1] is not None else None, DExpr):
                    dexprs.add(u)      # a number that becomes an expression; a constant expression is the same thing
                    redo = True
                elif u in sorts and sorts[u] == I:
                    v = p.cells[u[0]].fields.get(u[1])
                    if isinstance(v, float) or isz(v) and v.sort() == R:
                        sorts[u] = R
                        redo = True
        if new <= modified and not redo:
            break
        modified |= new
    else:
        raise Unsupported("loop effects do not stabilise")
    normal = [p for p in paths if p.out == "normal"]
    brk = [p for p in paths if p.out == "break"]
    ret = [p for p in paths if p.out == "return"]
    rai = [p for p in paths if p.out == "raise"]
    ph_terms = []
    for u, ph in phs.items():
        if isz(ph):
            ph_terms.append((u, ph))
        elif isinstance(ph, DExpr):
            ph_terms.append((u, ph.term))

    # ---- effects of the normal paths
    deltas, flags, lists, dicts, poison = {}, {}, {}, {}, set()
    for u in modified:
        cid, f = u
        ph = phs[u]
        if f is None:
            c0 = cells[cid]
            for p in normal + brk:
                c = p.cells[cid]
                if c is c0:
                    continue
                if c.base is not ph:
                    raise Unsupported("container replaced in loop")
                if isinstance(c, ListV):
                    if p in brk:
                        raise Unsupported("append before break")
                    lists.setdefault(cid, []).append((p, c))
                else:
                    if p in brk:
                        raise Unsupported("dict update before break")
                    dicts.setdefault(cid, []).append((p, c))
            continue
        if isinstance(ph, Poison):
            if any(p.cells[cid].fields.get(f) is not ph for p in normal):
                poison.add(u)
            continue
        for p in normal:
            v = p.cells[cid].fields.get(f)
            if isinstance(ph, DExpr) and isinstance(v, (DExpr,)) and v.term.eq(ph.term):
                continue
            if isz(ph) and isz(v) and v.eq(ph):
                continue
            if isinstance(ph, DExpr):
                d = split_add(v.term, ph.term) if isinstance(v, DExpr) else None
                if d is None:
                    poison.add(u)
                else:
                    deltas.setdefault(u, []).append((p, d))
                continue
            if ph.sort() == B:
                if isinstance(v, bool) or z3.is_true(v) or z3.is_false(v):
                    flags.setdefault(u, []).append((p, v if isinstance(v, bool) else z3.is_true(v)))
                else:
                    poison.add(u)
                continue
            if not _isnum(v):
                poison.add(u)
                continue
            d = split_add(v if isz(v) else (z3.IntVal(v) if isinstance(v, int) else real(v)), ph)
            if d is None:
                if isz(v) and occurs(ph, v):
                    poison.add(u)
                elif not isz(v):
                    flags.setdefault(u, []).append((p, v))
                else:
                    poison.add(u)
            else:
                deltas.setdefault(u, []).append((p, d))
    for u in list(flags):
        if u in deltas or u in poison or len({repr(x) for _, x in flags[u]}) != 1:
            poison.add(u)
    for u in list(deltas):
        if u in poison:
            del deltas[u]
    for u in list(flags):
        if u in poison:
            del flags[u]

    best = argbest(eng, phs, cells, pre0, normal, brk, ret, rai, modified, nb, guard, lists, dicts, deltas, flags, limit)
    if best:
        return False

    # ---- placeholders occurring in conditions or effects
    def closed_form(u, ph):
        init = lib.sort_as(pre0[u[0]].fields[u[1]], ph.sort())
        if u not in deltas or u in poison:
            return None
        ds = deltas[u]
        if len(nb) == 1 and z3.is_true(guard) and len(ds) == len(normal) and not brk:
            d0 = z3.simplify(ds[0][1])
            if all(z3.simplify(d).eq(d0) for _, d in ds) and not any(occurs(x, d0) for x in (nb[0].var, ph)):
                if ph.sort() == I:
                    return init + d0 * (nb[0].var - nb[0].lo)
                return init + real(d0) * z3.ToReal(nb[0].var - nb[0].lo)
        return None
    mph = list(lin_map)
    for u, ph in ph_terms:
        used = False
        for p in paths:
            if any(occurs(ph, x) for x in p.pc):
                used = True
            for w in modified:
                if w[1] is None:
                    c = p.cells.get(w[0])
                    if c is not cells[w[0]] and lib.value_has(eng, c, ph, p.cells):
                        used = True
                elif w != u and p.out == "normal":
                    x = p.cells[w[0]].fields.get(w[1])
                    if w not in poison and lib.value_has(eng, x, ph, p.cells):
                        used = True
            if p.out == "return" and lib.value_has(eng, p.val, ph, p.cells):
                used = True
        if not used and any(occurs(ph, d) for w in deltas for _, d in deltas[w]):
            used = True
        if used:
            t = closed_form(u, ph)
            if t is None:
                raise Unsupported("loop-carried value %s is used by other effects" % (u[1],))
            mph.append((ph, t))

    def close(t):
        return subst(t, mph)

    def pcond(p):
        return band(*[close(x) for x in p.pc if x.get_id() not in eng.aux])

    if linear:
        u = lin_map[0][0]
        for p in paths:
            if any(occurs_app(u, x) for x in p.pc if x.get_id() not in eng.aux):
                raise Unsupported("branch on a value of an additive dict")
        for w in deltas:
            for _, d in deltas[w]:
                _homog(d, u)
        if lists or flags or ret or brk:
            raise Unsupported("non-linear use of an additive dict")
        for cid in dicts:
            for p, c in dicts[cid]:
                for pc_ in c.pieces:
                    if pc_.mode != "add":
                        raise Unsupported("non-additive use of an additive dict")
                    _homog(pc_.val, u)

    tokens = [phs[u] for u in modified if u[1] is None]

    def no_base(x, what):
        for a in sum_apps(x, lib.DGETS) if isz(x) else ():
            e = lib.DGETS[a.decl().name()]
            if any(e["base"] is t for t in tokens):
                raise Unsupported("%s reads a container the loop modifies" % what)
    for p in paths:
        for x in p.pc:
            if x.get_id() not in eng.aux:
                no_base(x, "a condition")

    own_reads(eng, dicts, deltas, lists, cells, pre0, nb, guard, pcond, tokens, limit)

    # ---- exceptions, returns, breaks
    def exists(ps):
        return mk_exists(nb, band(guard, bor(*[pcond(p) for p in ps])))
    if rai:
        if eng.branch(exists(rai)):
            raise RaiseEx(rai[0].val)
    if ret or brk:
        outer = [u for u in modified if not _dies(eng, u, sc) and not (u in poison and u[1] is not None)]
        if ret and [u for u in outer if u in deltas or u[0] in lists or u[0] in dicts or u in flags]:
            raise Unsupported("return from a loop with side effects")
        if ret and brk:
            raise Unsupported("return and break in one loop")
    if ret:
        if eng.branch(exists(ret)):
            closed = len(ret) == 1 or all(lib.vequal_syn(r.val, ret[0].val) for r in ret)
            binds = [b.var.get_id() for b in nb]
            if closed and not any(i in binds for i in vfree(ret[0].val)) and not isinstance(ret[0].val, Ref):
                raise ReturnEx(ret[0].val)
            if len(nb) != 1:
                raise Unsupported("return of an element of a nested sequence")
            # first index at which the loop returns
            w = lib.skolem(eng, "first", I)
            conds = bor(*[pcond(p) for p in ret])
            j = freshi("j")
            m = [(nb[0].var, w)]
            eng.aux_fact(band(subst(nb[0].range(), m), subst(guard, m), subst(conds, m)))
            mj = [(nb[0].var, j)]
            eng.aux_fact(z3.ForAll([j], z3.Implies(band(subst(nb[0].range(), mj), j < w, subst(guard, mj)), z3.Not(subst(conds, mj)))))
            for r in ret[:-1]:
                if eng.branch(subst(pcond(r), m)):
                    raise ReturnEx(lib.materialise(eng, vsub(lib.freeze(eng, r.val, limit, r.cells), m)))
            r = ret[-1]
            eng.aux_fact(subst(pcond(r), m))
            raise ReturnEx(lib.materialise(eng, vsub(lib.freeze(eng, r.val, limit, r.cells), m)))
    if brk:
        if deltas or lists or dicts:
            raise Unsupported("break in an accumulating loop")
        if eng.branch(exists(brk)):
            upd = {}
            for u in modified:
                if u[1] is None:
                    continue
                vs = [p.cells[u[0]].fields.get(u[1]) for p in brk]
                v0 = vs[0]
                if all(_same(v, v0) for v in vs) and (isinstance(v0, (bool, int, float, str, type(None))) or isz(v0) and not any(
                        occurs(b.var, v0) for b in nb) and not (isz(phs[u]) and occurs(phs[u], v0))):
                    upd[u] = v0
                elif all(v is phs[u] or isz(v) and isz(phs[u]) and v.eq(phs[u]) for v in vs) and u not in flags and u not in poison:
                    pass
                else:
                    upd[u] = Poison("assigned before break")
            _apply(eng, upd)
            return True

    # ---- normal effects
    upd = {}
    for u in poison:
        upd[u] = Poison("assigned in a loop")
    for u, ds in deltas.items():
        init = pre0[u[0]].fields[u[1]]
        for _, d in ds:
            no_base(d, "a sum")
        tot = z3.RealVal(0)
        allp = len(ds) == len(normal) and not rai
        d0 = z3.simplify(real(close(ds[0][1])))
        if len(ds) == len(normal) and all(z3.simplify(real(close(d))).eq(d0) for _, d in ds):
            body_t = d0
        else:
            body_t = z3.RealVal(0)
            for p, d in ds:
                body_t = body_t + z3.If(pcond(p), real(close(d)), z3.RealVal(0))
        for x in (body_t,):
            for w, ph in ph_terms:
                if occurs(ph, x):
                    raise Unsupported("loop-carried value in a sum")
        if u in dexprs or isinstance(init, DExpr):
            upd[u] = DExpr(lib.dexpr_term(init) + mk_sum(nb, guard, body_t), maybe_number(init))
            continue
        so = sorts[u]
        if so == I:
            c = z3.simplify(body_t)
            if len(nb) == 1 and z3.is_true(guard) and z3.is_rational_value(c):
                cnt = z3.If(nb[0].hi > nb[0].lo, nb[0].hi - nb[0].lo, z3.IntVal(0))
                if eng.entailed(nb[0].hi >= nb[0].lo):
                    cnt = nb[0].hi - nb[0].lo
                upd[u] = z3.simplify(lib.sort_as(init, I) + int(c.as_fraction()) * cnt)
            else:
                upd[u] = lib.sort_as(init, I) + z3.ToInt(mk_sum(nb, guard, body_t))
        else:
            upd[u] = z3.simplify(real(init) + mk_sum(nb, guard, body_t)) if not lib.is_zero(init) else mk_sum(nb, guard, body_t)
    for u, fs in flags.items():
        init = pre0[u[0]].fields[u[1]]
        e = exists([p for p, _ in fs])
        v = fs[0][1]
        if isinstance(v, bool):
            bi = z3.BoolVal(init) if isinstance(init, bool) else init
            upd[u] = z3.simplify(z3.Or(e, bi)) if v else z3.simplify(z3.And(z3.Not(e), bi))
        else:
            upd[u] = z3.If(e, real(v), real(init))
    for cid, lst in lists.items():
        init = pre0[cid]
        upd[cid, None] = _list_effect(eng, init, lst, normal, nb, guard, pcond, mph, limit, no_base)
    for cid, lst in dicts.items():
        init = pre0[cid]
        upd[cid, None] = _dict_effect(eng, init, lst, nb, guard, pcond, mph, limit, no_base)
    _apply(eng, upd)
    return False


def argbest(eng, phs, cells, pre0, normal, brk, ret, rai, modified, nb, guard, lists, dicts, deltas, flags, limit):
    """Best-so-far loops: some scalar is replaced by e(t) exactly if e(t) is better (< or >, strictly or not) than it, other variables
    are assigned along with it.  Afterwards it is e(w) for the first (last, if not strict) best iteration w, if that beats the start."""
    if brk or ret or rai or lists or dicts or deltas or flags or len(nb) != 1 or not z3.is_true(guard) or len(normal) < 2:
        return False
    cand = [u for u in modified if u[1] is not None and isz(phs[u]) and phs[u].sort() != B
            and any(occurs(phs[u], x) for p in normal for x in p.pc)]
    if len(cand) != 1:
        return False
    u = cand[0]
    ph = phs[u]
    field = lambda p, w: p.cells[w[0]].fields.get(w[1])
    same = lambda p, w: field(p, w) is phs[w] or isz(phs[w]) and isz(field(p, w)) and field(p, w).eq(phs[w])
    T = [p for p in normal if not same(p, u)]
    N = [p for p in normal if same(p, u)]
    if not T or not N or not all(_isnum(field(p, u)) for p in T):
        return False
    e = lib.sort_as(field(T[0], u), ph.sort())
    if occurs(ph, e) or not all(lib.sort_as(field(p, u), ph.sort()).eq(e) for p in T):
        return False
    aux = lambda p: [x for x in p.pc if x.get_id() in eng.aux]

    def implied(ps, goal):
        return all(norm.check(eng.facts + eng.pc + list(p.pc) + [z3.Not(goal)], 3000)[0] == z3.unsat for p in ps)
    for better, worse in ((e < ph, e >= ph), (e <= ph, e > ph), (e > ph, e <= ph), (e >= ph, e < ph)):
        if implied(T, better) and implied(N, worse):
            break
    else:
        return False
    if any(aux(p) for p in normal):
        return False
    # paths are exhaustive: the value is replaced exactly if it is better
    others = [w for w in modified if w != u and w[1] is not None]
    comp = [w for w in others if all(same(p, w) for p in N)]
    if len(T) > 1:
        for w in comp:
            if not all(_same(field(p, w), field(T[0], w)) for p in T):
                return False
    for w in comp:
        v = lib.freeze(eng, field(T[0], w), limit, T[0].cells)
        if any(isz(phs[x]) and occurs(phs[x], t) for x in phs for t in vfree_terms(v)):
            return False
    init = lib.sort_as(pre0[u[0]].fields[u[1]], ph.sort())
    upd = {w: Poison("assigned in a loop") for w in others if w not in comp}
    rel = lambda t: z3.substitute(better, (ph, t))
    if eng.branch(mk_exists(nb, z3.simplify(rel(init)))):
        w_ = lib.skolem(eng, "best", I)
        j = freshi("j")
        t = nb[0].var
        at = lambda x, q: subst(x, [(t, q)])
        eng.aux_fact(band(at(nb[0].range(), w_), at(rel(init), w_)))
        ew = at(e, w_)
        rng = at(nb[0].range(), j)
        ej = at(e, j)
        better_than_w = z3.substitute(better, (e, ej), (ph, ew))
        strict = better.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        less = better.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE)
        eng.aux_fact(z3.ForAll([j], z3.Implies(rng, ew <= ej if less else ew >= ej)))
        eng.aux_fact(z3.ForAll([j], z3.Implies(z3.And(rng, j < w_ if strict else j > w_), ew < ej if less else ew > ej)))
        upd[u] = ew
        for w in comp:
            v = lib.freeze(eng, field(T[0], w), limit, T[0].cells)
            upd[w] = lib.materialise(eng, vsub(v, [(t, w_)]))
    _apply(eng, upd)
    return True


def own_reads(eng, dicts, deltas, lists, cells, pre0, nb, guard, pcond, tokens, limit):
    """Reads of a container the loop modifies, at a key that no other iteration writes: the value is the one at loop entry
    (plus what this iteration wrote before).  Such reads get a definition; the others stay undefined."""
    if not tokens:
        return
    ids = {}
    for cid in dicts:
        for p, c in dicts[cid]:
            ids.setdefault(cid, c.base)
    if not ids:
        return
    # reads used in an effect of a path hold under that path's condition
    def private(p, terms):
        m = []
        for x in terms:
            for a in sum_apps(x, lib.DGETS):
                e = lib.DGETS[a.decl().name()]
                if e.get("hyp") is None and any(e["base"] is t for t in ids.values()) and not any(a.eq(y) for y, _ in m):
                    nm = "DG_%d" % len(lib.DGETS)
                    f = z3.Function(nm, *([c.sort() for c in e["params"]] + [R])) if e["params"] else None
                    pm = list(zip(e["params"], a.children()))
                    if any(not x.eq(y) for x, y in pm):
                        continue
                    lib.DGETS[nm] = dict(e, hyp=band(*([b.range() for b in nb] + [guard, pcond(p)])))
                    m.append((a, f(*e["params"]) if f is not None else z3.Const(nm, R)))
        return m
    for u in deltas:
        deltas[u] = [(p, subst(d, private(p, [d]))) for p, d in deltas[u]]
    for cid in lists:
        lists[cid] = [(p, ListV([vsub(Seg(s.binders, s.guard, lib.freeze(eng, s.val, limit, p.cells)), private(p, vfree_terms(s))) for s in c.segs], c.kind, c.base, c.unordered)) for p, c in lists[cid]]
    for cid in dicts:
        out = []
        for p, c in dicts[cid]:
            ps = [Piece(q.binders, q.guard, q.key, lib.freeze(eng, q.val, limit, p.cells), q.mode) for q in c.pieces]
            ps = [vsub(q, private(p, vfree_terms(q))) for q in ps]
            out.append((p, c.copy(pieces=ps)))
        dicts[cid] = out
    for nm, e in list(lib.DGETS.items()):
        if e.get("hyp") is None or e["defn"] is not None or not any(e["base"] is t for t in ids.values()):
            continue
        cid = [c for c, t in ids.items() if t is e["base"]][0]
        ok = not any(q.mode == "set" and lib.unify(q.key, e["key"]) is not None for q in e["content"].pieces)
        for p, c in dicts[cid] if ok else ():
            for q in c.pieces:
                m = [(b.var, freshi("o")) for b in nb]
                fb = [Binder(v, subst(b.lo, m), subst(b.hi, m)) for (_, v), b in zip(m, nb)]
                qb, qg, qk = refresh(*((lambda r: (r.binders, r.guard, r.key))(vsub(q, m))))
                eqs = lib.unify(qk, e["key"])
                if eqs is None:
                    continue
                hyp = band(*([b.range() for b in fb + qb] + [subst(guard, m), subst(pcond(p), m), qg, e["hyp"], bor(*[x != y for x, y in m])] + eqs))
                if eng.feasible(hyp):
                    ok = False
                    break
            if not ok:
                break
        if not ok:
            raise Unsupported("a loop reads a container entry that other iterations modify")
        init = pre0[cid]
        content = init.copy(pieces=list(init.pieces) + list(e["content"].pieces))
        e.update(content=content, base=init.base, defn=None if init.base is not None else lib.dsum(content, e["key"]))


def occurs_app(app, e):
    """occurrence of an application (or constant) as a subterm."""
    seen, stack = set(), [e]
    while stack:
        t = stack.pop()
        if t.eq(app):
            return True
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        stack.extend(t.children())
    return False


def _homog(d, u):
    d = real(d)
    try:
        ms = norm.expand(d)
    except norm.Giveup:
        raise Unsupported("linearity of %s" % d)
    for m in ms:
        n = 0
        for a, p in m.facs.values():
            if a.eq(u):
                n += p
            elif occurs_app(u, a):
                raise Unsupported("non-linear use of an additive dict value")
        for a in m.inds.values():
            if occurs_app(u, a):
                raise Unsupported("non-linear use of an additive dict value")
        if n != 1:
            raise Unsupported("use of an additive dict value is not homogeneous")


def _dies(eng, u, sc):
    """Local variables of the running function (or comprehension)."""
    return any(fr.id == u[0] for fr in sc.frames) and u[1] is not None


def _apply(eng, upd):
    for (cid, f), v in upd.items():
        if f is None:
            eng.cells[cid] = v
        else:
            c = eng.cells[cid]
            fl = dict(c.fields)
            fl[f] = v
            eng.cells[cid] = ObjV(c.cls, fl)


def split_add(v, ph):
    """v - ph if v = ph + (something without ph), else None."""
    if not occurs(ph, v):
        return None
    if ph.sort() == I and v.sort() == R:
        return None
    z = z3.IntVal(0) if ph.sort() == I else z3.RealVal(0)
    d = z3.simplify(z3.substitute(v, (ph, z)))
    t = z3.simplify(v - ph - d)
    if z3.is_rational_value(t) and t.as_fraction() == 0 or z3.is_int_value(t) and t.as_long() == 0:
        return d
    if norm.check([v - ph != d], 1500)[0] == z3.unsat:
        return d
    return None


def _list_effect(eng, init, lst, normal, nb, guard, pcond, mph, limit, no_base):
    segs = []
    unordered = init.unordered
    # one plain element per path: merge
    simple = all(len(c.segs) == 1 and c.segs[0].plain() for _, c in lst)
    vals = []
    for p, c in lst:
        vs = []
        for s in c.segs:
            s2 = Seg(s.binders, s.guard, lib.freeze(eng, s.val, limit, p.cells))
            s2 = vsub(s2, mph)
            for x in vfree_terms(s2):
                no_base(x, "a list element")
            vs.append(s2)
        vals.append((p, vs))
    if simple:
        merged = lib.merge([(pcond(p), vs[0].val) for p, vs in vals], light=True)
        if merged is not None:
            full = len(lst) == len(normal)
            g = guard if full else band(guard, bor(*[pcond(p) for p, _ in lst]))
            return ListV(init.segs + [Seg(nb, g, merged[0])], init.kind, init.base, unordered=unordered)
    if (len(lst) > 1 or any(len(c.segs) > 1 for _, c in lst)) and not unordered:
        unordered = "paths"     # the order between the segments is not represented; within one it is
    for p, vs in vals:
        for s in vs:
            g = band(guard, pcond(p), s.guard) if not (len(normal) == 1) else band(guard, s.guard)
            segs.append(Seg(nb + s.binders, z3.simplify(g), s.val))
    return ListV(init.segs + segs, init.kind, init.base, unordered=unordered)


def vfree_terms(v, acc=None):
    """all z3 terms inside a value."""
    acc = [] if acc is None else acc
    if isz(v):
        acc.append(v)
    elif isinstance(v, (tuple, list)):
        for x in v:
            vfree_terms(x, acc)
    elif isinstance(v, Rec):
        for x in v.attrs.values():
            vfree_terms(x, acc)
        vfree_terms(v.ident, acc)
    elif isinstance(v, (SymEnum, DExpr)):
        acc.append(v.term)
    elif isinstance(v, DCons):
        acc.extend([v.lhs, v.rhs])
    elif isinstance(v, StrV):
        vfree_terms(v.parts, acc)
    elif isinstance(v, Seg):
        acc.append(v.guard)
        vfree_terms(v.val, acc)
    elif isinstance(v, (ListV, SeqV)):
        for s in v.segs:
            vfree_terms(s, acc)
    elif isinstance(v, Piece):
        acc.append(v.guard)
        vfree_terms(v.key, acc)
        vfree_terms(v.val, acc)
    elif isinstance(v, DictV):
        for p in v.pieces:
            vfree_terms(p, acc)
    elif isinstance(v, ObjV):
        for x in v.fields.values():
            vfree_terms(x, acc)
    elif isinstance(v, FuncV):
        vfree_terms(list(v.defaults) + list(v.kwdefaults.values()), acc)
    elif isinstance(v, BoundV):
        vfree_terms(v.self, acc)
    return acc


def _dict_effect(eng, init, lst, nb, guard, pcond, mph, limit, no_base):
    new = []
    for p, c in lst:
        for q in c.pieces:
            q2 = Piece(q.binders, q.guard, q.key, lib.freeze(eng, q.val, limit, p.cells), q.mode)
            q2 = vsub(q2, mph)
            for x in vfree_terms(q2):
                no_base(x, "a dict value")
            new.append(Piece(nb + q2.binders, z3.simplify(band(guard, pcond(p), q2.guard)), q2.key, q2.val, q2.mode))
    if init.kind == "dok" or init.kind == "arr" or init.kind == "dict" or init.kind == "defaultdict":
        pass
    # 'set' instances must have pairwise different keys, and differ from every other key
    for a, q in enumerate(new):
        if q.mode != "set":
            continue
        b1, g1, k1, v1 = refresh(q.binders, q.guard, q.key, q.val)
        b2, g2, k2, v2 = refresh(q.binders, q.guard, q.key, q.val)
        eqs = lib.unify(k1, k2)
        if eqs is not None:
            same = band(*[x.var == y.var for x, y in zip(b1, b2)])
            hyp = band(*([b.range() for b in b1 + b2] + [g1, g2] + eqs))
            if not eng.entailed(z3.Implies(hyp, same)):
                same_v = lib.veq_term(v1, v2)
                if same_v is None or not eng.entailed(z3.Implies(hyp, same_v)):
                    raise Unsupported("keys written in the loop are not provably distinct")
                # equal values for equal keys: an entry is made by the first iteration that writes its key
                if len(q.binders) != 1 or len([r for r in new if r.mode == "set"]) > 1 or eng.binders:
                    raise Unsupported("repeated identical writes")
                b = q.binders[0]
                eb, eg, ek = refresh(q.binders, q.guard, q.key)
                e = mk_exists(eb, z3.simplify(band(eg, eb[0].var < b.var, *lib.unify(ek, q.key))))
                # the least-number principle: every written key has a first writer
                fst = z3.Function("first!%d" % next(lib._cnt), I, I)
                m = [(b.var, fst(b.var))]
                eng.aux_fact(z3.ForAll([b.var], z3.Implies(band(b.range(), q.guard), band(subst(b.range(), m), fst(b.var) <= b.var, subst(q.guard, m), *(
                    lib.unify(subst(q.key, m), q.key) + [z3.Not(subst(e, m))]))), patterns=[fst(b.var)]))
                lib.FIRST.append((fst, q.key))
                q.guard = z3.simplify(band(q.guard, z3.Not(e)))
                continue
        for c, r in enumerate(new):
            if c == a or (r.mode == "set" and c < a):
                continue
            b3, g3, k3 = refresh(r.binders, r.guard, r.key)
            eqs = lib.unify(k1, k3)
            if eqs is None:
                continue
            hyp = band(*([b.range() for b in b1 + b3] + [g1, g3] + eqs))
            if eng.feasible(hyp):
                # other path of the same iteration or different iteration: must be the same instance excluded by guards
                raise Unsupported("keys written in the loop overlap")
    old = list(init.pieces)
    sets = [q for q in new if q.mode == "set"]
    if sets:
        if init.base is not None:
            pass   # base keys are masked by later readers: the enclosing loop checks disjointness again
        kept = []
        for o in old:
            g = o.guard
            for q in sets:
                b1, g1, k1 = refresh(q.binders, q.guard, q.key)
                ob, og, ok = refresh(o.binders, g, o.key)
                eqs = lib.unify(k1, ok)
                if eqs is None:
                    continue
                hyp = band(*([b.range() for b in b1 + ob] + [g1, og] + eqs))
                if eng.feasible(hyp):
                    if o.mode != "set":
                        raise Unsupported("overwriting an additive entry")
                    b1, g1, k1 = refresh(q.binders, q.guard, q.key)
                    eqs = lib.unify(k1, o.key)
                    g = band(g, z3.Not(mk_exists(b1, band(*([g1] + eqs)))))
            kept.append(Piece(o.binders, g, o.key, o.val, o.mode))
        old = kept
    return init.copy(pieces=old + new)


def run_while(eng, s, sc):
    """Concrete unrolling while the condition is decided; otherwise havoc of the assigned locals and exit under the negated condition."""
    from . import interp
    import ast
    for h in eng.while_hooks:
        if h(eng, s, sc):
            return
    if isinstance(s.test, ast.Constant) and s.test.value is True:
        return while_true(eng, s, sc)
    for _ in range(64):
        c = lib.truthy(eng, eng.eval(s.test, sc))
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if isinstance(c, bool):
            if not c:
                return
            try:
                eng.block(s.body, sc)
            except ContinueEx:
                continue
            except BreakEx:
                return
            continue
        break
    else:
        raise Unsupported("while loop does not terminate in the unrolling bound")
    # havoc rule: only plain local assignments of names/numbers
    names = set()
    for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
        if isinstance(n, (ast.Break, ast.Return, ast.Raise, ast.Call)) or isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
            if not hasattr(s, "pv_loop"):
                test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=[ast.Break()], orelse=[])
                s.pv_loop = ast.fix_missing_locations(ast.copy_location(ast.While(test=ast.Constant(True), body=[test] + s.body, orelse=[]), s))
            return while_true(eng, s.pv_loop, sc)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
    entered = eng.branch(c)
    if not entered:
        return
    for nm in names:
        v = eng.lookup(nm, sc)
        v = lib.as_name(eng, v) if isinstance(v, (str, lib.StrV)) else v
        if isz(v):
            eng.setlocal(nm, lib.skolem(eng, "hav", v.sort()), sc)
        else:
            raise Unsupported("while loop over %r" % (v,))
    c = lib.truthy(eng, eng.eval(s.test, sc))
    if isinstance(c, bool):
        if c:
            raise Unsupported("while loop does not terminate")
        return
    eng.aux_fact(z3.Not(c))


def while_true(eng, s, sc):
    """while True: the first iterations as they are; once an iteration that took an undecided branch comes round for the second time,
    one iteration from an arbitrary state (the assigned locals havocked) stands for all further ones: its exits are the loop's exits,
    coming round again is covered by the arbitrary state."""
    import ast
    sym = 0
    for _ in range(64):
        d0 = eng.dpos
        pre = dict(eng.cells)
        limit = eng.next
        try:
            eng.block(s.body, sc)
        except ContinueEx:
            pass
        except BreakEx:
            return
        sym += eng.dpos > d0
        if sym < 2:
            continue
        frame = {f.id for f in sc.frames}
        mods = _mods(pre, eng.cells, limit)
        if any(f is None or cid not in frame for cid, f in mods):
            raise Unsupported("while True with side effects")
        names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        # a counter and what is a function of it: the invariant  other == f(counter), taken from the state reached, checked below
        vals = {nm: eng.lookup(nm, sc) for nm in names}
        cnt = [nm for nm, v in vals.items() if isz(v) and v.sort() == I]
        inv = {}
        if len(cnt) == 1:
            c0 = z3.simplify(vals[cnt[0]])
            base = c0.children() if z3.is_add(c0) else [c0]
            syms = [x for x in base if not z3.is_int_value(x)]
            if len(syms) == 1 and z3.is_const(syms[0]):
                off = sum(x.as_long() for x in base if z3.is_int_value(x))
                hk = lib.skolem(eng, "hav", I)
                inv = {nm: v for nm, v in ((nm, lib.as_name(eng, v) if isinstance(v, lib.StrV) else v) for nm, v in vals.items() if nm != cnt[0]) if isz(v) and occurs(syms[0], v)}
                eng.setlocal(cnt[0], hk, sc)
                for nm, v in inv.items():
                    eng.setlocal(nm, subst(v, [(syms[0], hk - off)]), sc)
        for nm in names:
            if inv and (nm in inv or nm == cnt[0]):
                continue
            v = vals[nm]
            if isinstance(v, (str, lib.StrV)):
                v = lib.as_name(eng, v)
            if isinstance(v, bool) or isz(v) and v.sort() == B:
                eng.setlocal(nm, lib.skolem(eng, "hav", B), sc)
            elif isinstance(v, int):
                eng.setlocal(nm, lib.skolem(eng, "hav", I), sc)
            elif isz(v):
                eng.setlocal(nm, lib.skolem(eng, "hav", v.sort()), sc)
            else:
                raise Unsupported("while True carries %r" % (v,))
        pre, limit = dict(eng.cells), eng.next
        try:
            eng.block(s.body, sc)
        except ContinueEx:
            pass
        except BreakEx:
            if any(f is None or cid not in frame for cid, f in _mods(pre, eng.cells, limit)):
                raise Unsupported("while True with side effects")
            return
        if inv:
            k1 = lib.num(eng.lookup(cnt[0], sc))
            for nm, v in inv.items():
                v1 = eng.lookup(nm, sc)
                v1 = lib.as_name(eng, v1) if isinstance(v1, lib.StrV) else v1
                goal = v1 == subst(v, [(syms[0], k1 - off)])
                if norm.check(eng.facts + eng.pc + [z3.Not(goal)], 3000)[0] != z3.unsat:
                    raise Unsupported("while True: no invariant for %s" % nm)
        raise Infeasible()      # comes round again: covered by the arbitrary state
    raise Unsupported("while loop does not terminate in the unrolling bound")
