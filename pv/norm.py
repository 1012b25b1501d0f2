"""Normal forms of scalar terms with nested sums, and the arithmetic prover built on them.

A term is expanded to a polynomial  sum of coef * [indicators] * factors  under binders (an index range each).  Guards and
if-then-else conditions become 0/1 indicators (idempotent), Kronecker indicators [i == t] eliminate their binder, and binders
are renamed canonically.  Two terms with the same normal form are equal for every interpretation; what is left over is compared
pointwise by z3.
"""
import itertools
import time
import zlib
from fractions import Fraction

import z3

from .terms import *

STATS = {"z3": 0, "z3_s": 0.0}
NF_LIMIT = 4000


class Giveup(Exception):
    pass


_UF = {}


def ufs(t):
    """Names of the uninterpreted functions (with arguments) in t."""
    k = t.get_id()
    hit = _UF.get(k)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo += x.children()
    out = frozenset(out)
    _UF[k] = (t, out)
    return out


def relevant(assumptions):
    """Without the quantified facts none of whose patterns can match."""
    qs = [a for a in assumptions if z3.is_quantifier(a) and a.num_patterns()]
    if not qs:
        return assumptions
    keep = [a for a in assumptions if not (z3.is_quantifier(a) and a.num_patterns())]
    names = set().union(*[ufs(a) for a in keep]) if keep else set()
    more = True
    while more and qs:
        more = False
        for q in list(qs):
            if any(all(ufs(x) <= names for x in q.pattern(i).children()) for i in range(q.num_patterns())):
                qs.remove(q)
                keep.append(q)
                if not ufs(q.body()) <= names:
                    names |= ufs(q.body())
                more = True
    return keep


def check(assumptions, timeout=2000, logic=None, full=False):
    t = time.time()
    s = z3.Solver() if logic is None else z3.SolverFor(logic)
    s.set("timeout", timeout)
    hard = False
    assumptions = [z3.BoolVal(a) if isinstance(a, bool) else a for a in assumptions]
    for a in assumptions if full else relevant(assumptions):
        hard = hard or z3.is_quantifier(a) and a.num_vars() >= 2
        s.add(a)
    if hard and logic is None and not full:
        s.set("smt.auto_config", False)   # injectivity axioms: no model search, instantiation only
        s.set("smt.mbqi", False)
    r = s.check()
    STATS["z3"] += 1
    STATS["z3_s"] += time.time() - t
    return r, s


class Mono:
    __slots__ = ("coef", "binders", "inds", "facs")

    def __init__(self, coef, binders=(), inds=None, facs=None):
        self.coef, self.binders, self.inds, self.facs = coef, list(binders), dict(inds or {}), dict(facs or {})

    def mul(self, o):
        f = dict(self.facs)
        for k, (a, p) in o.facs.items():
            f[k] = (a, f[k][1] + p) if k in f else (a, p)
        i = dict(self.inds)
        i.update(o.inds)
        return Mono(self.coef * o.coef, self.binders + o.binders, i, f)

    def sub(self, m):
        out = Mono(self.coef, [b.sub(m) for b in self.binders])
        for a in self.inds.values():
            out.add_ind(z3.simplify(subst(a, m)))
        for a, p in self.facs.values():
            out.add_fac(z3.simplify(subst(a, m)), p)
        return out

    def add_ind(self, a):
        if z3.is_true(a):
            return
        self.inds[a.sexpr()] = a

    def add_fac(self, a, p=1):
        if z3.is_rational_value(a) or z3.is_int_value(a):
            fr = a.as_fraction() if z3.is_rational_value(a) else Fraction(a.as_long())
            self.coef *= fr ** p
            return
        k = a.sexpr()
        q = self.facs[k][1] + p if k in self.facs else p
        if q == 0:
            del self.facs[k]
        else:
            self.facs[k] = (a, q)

    def dead(self):
        return self.coef == 0 or any(z3.is_false(a) for a in self.inds.values())


def const(c):
    return [Mono(Fraction(c))]


def times(xs, ys):
    if len(xs) * len(ys) > NF_LIMIT:
        raise Giveup("normal form too large")
    return [x.mul(y) for x in xs for y in ys]


def neg(xs):
    return [Mono(-x.coef, x.binders, x.inds, x.facs) for x in xs]


def ind(c):
    """Indicator polynomial of a Bool term."""
    c = z3.simplify(c)
    return _ind(c)


def _ind(c):
    if z3.is_true(c):
        return const(1)
    if z3.is_false(c):
        return []
    if z3.is_not(c):
        return const(1) + neg(_ind(c.arg(0)))
    if z3.is_and(c):
        out = const(1)
        for a in c.children():
            out = times(out, _ind(a))
        return out
    if z3.is_or(c):
        out = const(1)
        for a in c.children():
            out = times(out, const(1) + neg(_ind(a)))
        return const(1) + neg(out)
    if z3.is_implies(c):
        return _ind(z3.simplify(z3.Or(z3.Not(c.arg(0)), c.arg(1))))
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
        t = _ind(c.arg(0))
        return times(t, _ind(c.arg(1))) + times(const(1) + neg(t), _ind(c.arg(2)))
    if z3.is_eq(c) and c.arg(0).sort() == B:
        a, b = _ind(c.arg(0)), _ind(c.arg(1))
        return times(a, b) + times(const(1) + neg(a), const(1) + neg(b))
    # inequalities over a common form: a >= b is  not (b > a)
    k = c.decl().kind()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_GE):
        a, b = c.arg(0), c.arg(1)
        if k == z3.Z3_OP_GE:
            return const(1) + neg(atom_ind(z3.simplify(a < b, arith_lhs=False) if False else _lt(a, b)))
        if k == z3.Z3_OP_GT:
            return atom_ind(_lt(b, a))
        if k == z3.Z3_OP_LT:
            return atom_ind(_lt(a, b))
        return const(1) + neg(atom_ind(_lt(b, a)))
    return atom_ind(c)


def _lt(a, b):
    # canonical: 0 < b - a, printed through simplify of the difference
    return z3.simplify(b - a) > 0


def atom_ind(c):
    m = Mono(Fraction(1))
    m.add_ind(c)
    return [m]


CLOSED = set()   # sums kept as atoms


CURRENT = []     # the prover whose facts may be used to prune guards


def has_ite(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    return z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c, seen) for c in t.children()))


def expand(e, opened=True):
    """List of monomials of a Real/Int term."""
    e = real(e) if not (isz(e) and e.sort() == I) else e
    if z3.is_rational_value(e):
        return const(e.as_fraction())
    if z3.is_int_value(e):
        return const(e.as_long())
    if z3.is_app(e):
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            return [m for c in ch for m in expand(c)]
        if k == z3.Z3_OP_SUB:
            out = expand(ch[0])
            for c in ch[1:]:
                out = out + neg(expand(c))
            return out
        if k == z3.Z3_OP_UMINUS:
            return neg(expand(ch[0]))
        if k == z3.Z3_OP_MUL:
            out = const(1)
            for c in ch:
                out = times(out, expand(c))
            return out
        if k == z3.Z3_OP_TO_REAL:
            return expand(ch[0])
        if k == z3.Z3_OP_TO_INT and CURRENT and CURRENT[-1].is_int(ch[0])[0]:
            return expand(ch[0])
        if k == z3.Z3_OP_DIV:
            den = z3.simplify(ch[1])
            if z3.is_rational_value(den) and den.as_fraction() != 0:
                f = 1 / den.as_fraction()
                return times(const(f), expand(ch[0]))
            m = Mono(Fraction(1))
            m.add_fac(z3.RealVal(1) / den)
            return times([m], expand(ch[0]))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(z3.simplify(real(ch[1]))):
            p = z3.simplify(real(ch[1])).as_fraction()
            if p.denominator == 1 and 0 <= p <= 4:
                out = const(1)
                for _ in range(int(p)):
                    out = times(out, expand(ch[0]))
                return out
        if k == z3.Z3_OP_ITE:
            c = ind(ch[0])
            return times(c, expand(ch[1])) + times(const(1) + neg(c), expand(ch[2]))
        if k == z3.Z3_OP_UNINTERPRETED and e.decl().name() in SUMS and e.decl().name() not in CLOSED:
            nb, guard, body = open_def(e, SUMS)
            if CURRENT and z3.is_and(guard) and has_ite(guard):
                guard = CURRENT[-1].prune(nb, guard)
            out = times(ind(guard), expand(body))
            return [Mono(m.coef, nb + m.binders, m.inds, m.facs) for m in out]
    m = Mono(Fraction(1))
    m.add_fac(e)
    return [m]


class Prover:
    """Facts are z3 formulas (quantified ones allowed)."""

    def __init__(self, facts, timeout=4000):
        self.facts = [f for f in facts if not (isinstance(f, bool) and f)]
        self.cache, self.keep = {}, []
        self.timeout = timeout
        self.deadline = None

    # ---- z3 with facts
    def entails(self, hyps, goal, timeout=None):
        key = (tuple(sorted(h.get_id() for h in hyps)), goal.get_id())
        if key not in self.cache:
            self.keep.append((list(hyps), goal))      # ids stay valid while the terms are alive
            if self.deadline and time.time() > self.deadline:
                raise Giveup("time")
            r, _ = check(self.facts + list(hyps) + [z3.Not(goal)], timeout or 1000)
            self.cache[key] = r == z3.unsat
        return self.cache[key]

    def inconsistent(self, hyps):
        return self.entails(hyps, z3.BoolVal(False))

    # ---- simplification of one monomial
    def prune(self, nb, guard):
        """The guard without the conjuncts that follow from the ranges of the bound variables and the other conjuncts."""
        rng = [b.range() for b in nb]
        left = list(guard.children())
        for c in list(left):
            rest = [x for x in left if x is not c]
            if has_ite(c) and self.entails(rng + rest, c):
                left = rest
        return z3.And(*left) if left else TRUE

    def simp(self, m):
        """Kronecker elimination and removal of implied indicators; None if the monomial vanishes."""
        for _ in range(20):
            if m.dead():
                return None
            hit = None
            for k, a in m.inds.items():
                if z3.is_eq(a):
                    for l, r in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                        for b in m.binders:
                            if b.var.eq(l) and not occurs(b.var, r) and not any(
                                    occurs(b.var, x) for b2 in m.binders for x in (b2.lo, b2.hi) if False):
                                hit = (k, b, r)
                                break
                        if hit:
                            break
                    if not hit:
                        # linear integer equation: b.var + t == s
                        for b in m.binders:
                            sol = solve_lin(a, b.var)
                            if sol is not None:
                                hit = (k, b, sol)
                                break
                    if not hit and a.arg(0).sort() == Name:
                        ra = unify_names(a.arg(0), a.arg(1))
                        if ra is not None and not (len(ra) == 1 and ra[0].eq(a)):
                            m2 = Mono(m.coef, m.binders, {x: y for x, y in m.inds.items() if x != k}, m.facs)
                            for q in ra:
                                m2.add_ind(q)
                            m = m2
                            hit = "again"
                if hit:
                    break
            if hit == "again":
                continue
            if not hit:
                break
            k, b, r = hit
            m2 = Mono(m.coef, [x for x in m.binders if x is not b], {x: y for x, y in m.inds.items() if x != k}, m.facs)
            lo, hi = b.lo, b.hi
            m2 = m2.sub([(b.var, r)])
            for q in (z3.simplify(lo <= r), z3.simplify(r < hi)):
                if not z3.is_true(q):
                    m2.add_ind(q)
            m = m2
        # implied / contradictory indicators
        ranges = [b.range() for b in m.binders]
        inds = dict(m.inds)
        for k in list(inds):
            rest = [v for kk, v in inds.items() if kk != k]
            if self.entails(ranges + rest, inds[k]):
                del inds[k]
        if inds and self.inconsistent(ranges + list(inds.values())):
            return None
        if ranges and self.inconsistent(ranges + list(inds.values())):
            return None
        m = Mono(m.coef, m.binders, inds, m.facs)
        return None if m.dead() else m

    def canon(self, m):
        """Canonical text key under binder permutation."""
        bs = m.binders
        best = None
        if len(bs) > 5:
            raise Giveup("too many binders")
        for perm in itertools.permutations(range(len(bs))):
            mp = [(bs[p].var, z3.Const("?c%d" % q, I)) for q, p in enumerate(perm)]
            doms = ["%s..%s" % (z3.simplify(subst(bs[p].lo, mp)).sexpr(), z3.simplify(subst(bs[p].hi, mp)).sexpr()) for p in perm]
            inds = sorted(z3.simplify(subst(a, mp)).sexpr() for a in m.inds.values())
            facs = sorted("%s^%d" % (norm_text(subst(a, mp)), p) for a, p in m.facs.values())
            t = (tuple(doms), tuple(facs), tuple(inds))
            if best is None or t < best[0]:
                best = (t, mp)
        return best

    def nf(self, e):
        CURRENT.append(self)
        try:
            ms = expand(e)
        finally:
            CURRENT.pop()
        return self.collect(ms)

    # ---- goals
    def eq(self, a, b):
        """(True, '') if a == b is proved."""
        d = self.nf(real(a) - real(b))
        if d:
            d = self.count(d)
        if not d:
            return True, "normal form"
        ok = self.pointwise(d, lambda e: e == 0)
        if not ok[0] is True and len(d) <= 12:
            try:
                if not self.ranges(d):
                    return True, "normal form (split ranges)"
            except Giveup:
                pass
        return ok

    def ranges(self, d):
        """Case distinctions inside factors are split, ranges get bounds without offset; what is left over."""
        todo = [Mono(c, m.binders, m.inds, m.facs) for c, m in d.values()]
        done = []
        steps = 0
        while todo:
            steps += 1
            if steps > 200:
                raise Giveup("too many cases")
            m = todo.pop()
            ite = next((x for a, _ in m.facs.values() for x in [inner_ite(a)] if x is not None), None)
            if ite is not None:
                c = ind(ite.arg(0))
                for side, arm in ((c, ite.arg(1)), (const(1) + neg(c), ite.arg(2))):
                    m2 = Mono(m.coef, m.binders, m.inds)
                    for a, p in m.facs.values():
                        m2.add_fac(z3.simplify(z3.substitute(a, (ite, arm))), p)
                    todo += times([m2], side)
                continue
            hit = False
            for b in m.binders:
                hi, off = offset(b.hi)
                lo = z3.simplify(b.lo)
                lo = lo.as_long() if z3.is_int_value(lo) else None
                if off and abs(off) <= 3 and not z3.is_int_value(z3.simplify(b.hi)):
                    nb, pts, sign = Binder(b.var, b.lo, hi), [hi + q for q in (range(off, 0) if off < 0 else range(0, off))], -1 if off < 0 else 1
                    cond = lambda t: b.lo <= t
                elif lo is not None and 0 < lo <= 3:
                    nb, pts, sign = Binder(b.var, z3.IntVal(0), b.hi), [z3.IntVal(q) for q in range(lo)], -1
                    cond = lambda t: t < b.hi
                else:
                    continue
                todo.append(Mono(m.coef, [nb if x is b else x for x in m.binders], m.inds, m.facs))
                for t in pts:
                    m2 = Mono(m.coef * sign, [x for x in m.binders if x is not b], m.inds, m.facs).sub([(b.var, z3.simplify(t))])
                    todo += times([m2], ind(cond(t)))
                hit = True
                break
            if not hit:
                done.append(m)
        return self.collect(done)

    def collect(self, ms):
        out = {}
        for m in ms:
            m = self.simp(m)
            if m is None:
                continue
            key, mp = self.canon(m)
            if key in out:
                out[key][0] += m.coef
            else:
                mm = m.sub(mp)
                mm.binders = [Binder(subst(b.var, mp), subst(b.lo, mp), subst(b.hi, mp)) for b in m.binders]
                out[key] = [m.coef, mm]
        return {k: v for k, v in out.items() if v[0] != 0}

    def count(self, d):
        """Sums that do not depend on their index become products with the size of the range."""
        for _ in range(3):
            again = False
            out = []
            for coef, m in d.values():
                ms = [Mono(coef, m.binders, m.inds, m.facs)]
                for b in m.binders:
                    rest = [x for x in m.binders if x is not b]
                    used = list(m.inds.values()) + [a for a, _ in m.facs.values()] + [y for x in rest for y in (x.lo, x.hi)]
                    if not any(occurs(b.var, t) for t in used) and self.entails([x.range() for x in rest] + list(m.inds.values()), b.hi >= b.lo):
                        ms = times([Mono(coef, rest, m.inds, m.facs)], expand(b.hi - b.lo))
                        again = True
                        break
                out += ms
            d = self.collect(out)
            if not again:
                break
        return d

    def ge0(self, e):
        """e >= 0 by pointwise comparison of sums."""
        d = self.nf(e)
        if not d:
            return True, "normal form"
        return self.pointwise(d, lambda t: t >= 0)

    def pointwise(self, d, rel):
        groups = {}
        for key, (coef, m) in d.items():
            doms = key[0]
            groups.setdefault(doms, []).append((coef, m))
        for doms, ms in groups.items():
            binders = ms[0][1].binders
            binders = sorted(binders, key=lambda b: b.var.decl().name())
            ranges = [b.range() for b in binders]
            # (1) per non-indicator monomial: boolean combination vanishes
            by = {}
            for coef, m in ms:
                k = tuple(sorted("%s^%d" % (x, p) for x, (a, p) in m.facs.items()))
                by.setdefault(k, []).append((coef, m))
            rest = []
            for k, lst in by.items():
                t = z3.Sum([z3.If(band(*m.inds.values()), z3.RealVal(str(coef)), z3.RealVal(0)) for coef, m in lst])
                if check(self.facts + ranges + [t != 0], 3000)[0] == z3.unsat:
                    continue
                rest += lst
            if not rest:
                continue
            # (2) the whole pointwise polynomial
            terms = []
            for coef, m in rest:
                t = z3.RealVal(str(coef))
                for a, p in m.facs.values():
                    for _ in range(p):
                        t = t * real(a)
                terms.append(z3.If(band(*m.inds.values()), t, z3.RealVal(0)))
            goal = rel(z3.Sum(terms))
            r, s = check(self.facts + ranges + [z3.Not(goal)], self.timeout)
            if r != z3.unsat:
                return False, "residual over %s: %s" % (doms, "; ".join("%s*%s[%s]" % (c, "*".join(m.facs), ",".join(m.inds)) for c, m in rest)[:1500])
        return True, "pointwise z3"

    def ge0_sums(self, e, inst):
        """e >= 0 where e is a linear combination of sums over alignable domains: integrands are compared pointwise, whole
        (min/max stay ites); inst(vars) gives the ground facts about the generic indices.  Leftover terms must vanish."""
        lin, const = {}, Fraction(0)
        for m in _lin(e):
            coef, atom = m
            if atom is None:
                const += coef
            else:
                k = atom.sexpr()
                c0 = lin.get(k, (Fraction(0), atom))[0]
                lin[k] = (c0 + coef, atom)
        groups, rest, why = {}, [], ""
        for coef, atom in lin.values():
            if coef == 0:
                continue
            if z3.is_app(atom) and atom.decl().name() in SUMS:
                nb, g, body = open_def(atom, SUMS)
                std = [(b.var, z3.Int("std!%d" % k)) for k, b in enumerate(nb)]
                doms = tuple((z3.simplify(subst(b.lo, std)).sexpr(), z3.simplify(subst(b.hi, std)).sexpr()) for b in nb)
                rg = [subst(b.range(), std) for b in nb]
                gr = groups.setdefault(doms, [rg, len(nb), [], []])
                gr[2].append(z3.RealVal(str(coef)) * z3.If(subst(g, std), subst(body, std), z3.RealVal(0)))
                gr[3].append(z3.RealVal(str(coef)) * atom)
            else:
                rest.append(z3.RealVal(str(coef)) * atom)
        rest.append(z3.RealVal(str(const)))
        for doms, (rg, nv, ts, atoms) in groups.items():
            fs = inst([z3.Int("std!%d" % k) for k in range(nv)])
            goal = [z3.Sum(ts) < 0]
            if check(purify(rg + fs + goal), self.timeout, "QF_NRA")[0] != z3.unsat:
                why = "pointwise over %s: %s" % (doms, str(z3.simplify(z3.Sum(ts)))[:800])
                rest += atoms
        if check(self.facts + [z3.Sum(rest) < 0], self.timeout)[0] != z3.unsat:
            return False, "residual %s %s" % (str(z3.simplify(z3.Sum(rest)))[:600], why)
        return True, "pointwise z3 (nonlinear)"

    def is_int(self, e, idx=(), hyps=(), depth=0):
        """Every summand is integral: factors are shown integral one by one, under the summation guard."""
        for coef, atom in _lin(e):
            if coef.denominator != 1:
                return False, "coefficient %s" % coef
            if atom is None:
                continue
            if z3.is_app(atom) and atom.decl().kind() == z3.Z3_OP_UNINTERPRETED and atom.decl().name() in SUMS and depth < 3:
                nb, g, body = open_def(atom, SUMS)
                r = self.is_int(body, list(idx) + [b.var for b in nb], list(hyps) + [b.range() for b in nb] + [g], depth + 1)
                if not r[0]:
                    return r
                continue
            for a in (atom.children() if atom.decl().kind() == z3.Z3_OP_MUL else [atom]):
                if a.decl().kind() == z3.Z3_OP_TO_REAL:
                    continue
                ground = instantiate(self.facts, idx)
                txt = a.sexpr()
                near = [f for f in ground if txt in f.sexpr()]
                near2 = near + [f for f in ground if not has_floor(f)]
                if not any(Prover(g + list(hyps), 3000).valid(z3.IsInt(a))[0] is True for g in (near, near2, ground)) and not self.entails(list(hyps), z3.IsInt(a), 3000):
                    return False, "%s not provably integral" % a
        return True, "summands integral"

    def valid(self, goal, timeout=None):
        """Plain z3 with sums opaque."""
        if has_floor(goal) or any(has_floor(f) for f in self.facts if not z3.is_quantifier(f)):
            gs = [f for f in self.facts if isz(f) and not has_quant(f)]
            if check(cone(floorfree(gs + [z3.Not(goal)], True)), min(2000, timeout or self.timeout))[0] == z3.unsat:
                return True, "z3"
            if check(floorfree(gs + [z3.Not(goal)]), timeout or self.timeout)[0] == z3.unsat:
                return True, "z3"
        fs = self.facts + [z3.Not(goal)]
        r, s = check(fs, timeout or self.timeout)
        if r != z3.unsat and any(z3.is_quantifier(f) for f in fs):
            r, s = check(fs, timeout or self.timeout, full=True)
        if r == z3.unsat:
            return True, "z3"
        return (False if r == z3.sat else None), ("counter-model: %s" % str(s.model())[:1200] if r == z3.sat else "z3: unknown")


def inner_ite(t):
    """An integer case distinction inside t."""
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and x.sort() == I:
                return x
            todo += x.children()
    return None


def offset(t):
    """(t - c, c) with the constant part c of t."""
    t = z3.simplify(t)
    if z3.is_add(t):
        cs = [c.as_long() for c in t.children() if z3.is_int_value(c)]
        rest = [c for c in t.children() if not z3.is_int_value(c)]
        if cs and rest:
            return z3.simplify(z3.Sum(rest)), sum(cs)
    return t, 0


def norm_text(a):
    return z3.simplify(a).sexpr()


def solve_lin(a, v):
    """t with (a is an integer equation) v == t, v occurring once with coefficient +-1."""
    key = (a.get_id(), v.get_id())
    if key in _solve_cache:
        return _solve_cache[key][2]
    r = _solve_lin(a, v)
    _solve_cache[key] = (a, v, r)
    return r


_solve_cache = {}


def _solve_lin(a, v):
    if a.arg(0).sort() != I:
        return None
    try:
        ms = expand(a.arg(0) - a.arg(1))
    except Giveup:
        return None
    coef, rest = Fraction(0), []
    for m in ms:
        if m.binders or m.inds:
            return None
        occ = [x for x, p in m.facs.values() if occurs(v, x)]
        if occ:
            if len(m.facs) == 1 and occ[0].eq(v) and list(m.facs.values())[0][1] == 1:
                coef += m.coef
            else:
                return None
        else:
            rest.append(m)
    if coef not in (1, -1):
        return None
    t = z3.IntVal(0)
    for m in rest:
        if m.coef.denominator != 1:
            return None
        x = z3.IntVal(int(m.coef))
        for f, p in m.facs.values():
            if f.sort() != I:
                return None
            for _ in range(p):
                x = x * f
        t = t + x
    return z3.simplify(-t if coef == 1 else t)


def unify_names(a, b):
    """Equations equivalent to a == b for constructor names, or [False]."""
    if not (z3.is_app(a) and z3.is_app(b)):
        return None
    ka, kb = a.decl(), b.decl()
    cons = {Name.constructor(i).name(): i for i in range(Name.num_constructors())}
    if ka.name() in cons and kb.name() in cons:
        if ka.name() != kb.name():
            return [z3.BoolVal(False)]
        out = []
        for x, y in zip(a.children(), b.children()):
            q = z3.simplify(x == y)
            out.append(q)
        return out
    return None


def _lin(e):
    """Linear combination of atoms: list of (Fraction, atom or None)."""
    e = z3.simplify(real(e), som=True)
    out = []
    for t in (e.children() if e.decl().kind() == z3.Z3_OP_ADD else [e]):
        if z3.is_rational_value(t):
            out.append((t.as_fraction(), None))
        elif t.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(t.arg(0)):
            rest = t.children()[1:]
            a = rest[0]
            for x in rest[1:]:
                a = a * x
            out.append((t.arg(0).as_fraction(), a))
        else:
            out.append((Fraction(1), t))
    return out


def purify(fs, ints=False):
    """Replace maximal uninterpreted Real/Int applications by constants (congruence dropped: sound for unsat)."""
    m = {}

    def walk(t):
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() in ((R, I) if ints else (R,)):
                k = t.sexpr()
                if k not in m:
                    m[k] = (t, z3.Const("pur!%d" % len(m), t.sort()))
                return
            for c in t.children():
                walk(c)
    for f in fs:
        walk(f)
    return [z3.simplify(z3.substitute(f, *m.values())) if m else f for f in fs if not z3.is_quantifier(f)]


def ground_check(fs):
    """Quantifier-free part only, floors eliminated (weaker facts: only unsat is conclusive)."""
    g = instantiate(fs, [])
    if any(has_floor(f) for f in g):
        g = floorfree(g)
    return check(g, 600)[0]


def has_kind(t, pred, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if pred(x):
            return True
        if z3.is_app(x):
            stack.extend(x.children())
    return False


def has_floor(t):
    return isz(t) and has_kind(t, lambda x: z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT))


def has_quant(t):
    return has_kind(t, z3.is_quantifier)


def intlike(x):
    if z3.is_rational_value(x):
        return x.as_fraction().denominator == 1
    if x.sort() == I:
        return True
    return z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_TO_REAL, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL) and all(intlike(c) for c in x.children())


def to_int(x):
    """Integer version of an intlike real term."""
    if z3.is_rational_value(x):
        return z3.IntVal(x.as_fraction().numerator)
    if x.sort() == I:
        return x
    k = x.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return x.arg(0)
    ch = [to_int(c) for c in x.children()]
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_UMINUS:
        return -ch[0]
    out = ch[0]
    for c in ch[1:]:
        out = out - c if k == z3.Z3_OP_SUB else out * c
    return out


def instantiate(facts, idx):
    """Ground facts plus the instances of universally quantified ones at all tuples of the given index terms."""
    out = []
    for f in facts:
        if not isz(f):
            continue
        if z3.is_and(f):
            out += instantiate(f.children(), idx)
        elif z3.is_quantifier(f) and f.is_forall():
            n = f.num_vars()
            for tup in itertools.product(idx, repeat=n):
                if all(f.var_sort(k) == tup[k].sort() for k in range(n)):
                    g = z3.substitute_vars(f.body(), *reversed(tup))
                    if not has_quant(g):
                        out.append(g)
        elif not has_quant(f):
            out.append(f)
    return out


def cone(fs):
    """Facts connected with the last one (the negated goal) through shared constants (fewer facts: sound for unsat)."""
    parts = []
    for f in fs[:-1]:
        parts += f.children() if z3.is_and(f) else [f]
    syms = {c.get_id() for c in free_consts(fs[-1])}
    keep, rest = [fs[-1]], [(p, {c.get_id() for c in free_consts(p)}) for p in parts]
    while True:
        hit = [x for x in rest if x[1] & syms or not x[1]]
        if not hit:
            return keep
        rest = [x for x in rest if not any(x is h for h in hit)]
        for p, c in hit:
            keep.append(p)
            syms |= c


def floorfree(fs, ints=False):
    """Ground facts with floors replaced by integers (k <= t < k+1) and equations x == ToReal(k) substituted."""
    fs = purify(fs, ints)
    eqs = []
    rest = []
    for f in fs:
        for g in (f.children() if z3.is_and(f) else [f]):
            if z3.is_eq(g) and g.arg(0).sort() == R:
                a, b = g.children()
                if not (z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    a, b = b, a
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and b.decl().kind() == z3.Z3_OP_TO_REAL and not any(a.eq(x) for x, _ in eqs):
                    eqs.append((a, b))
                    continue
            rest.append(g)
    fs = [z3.substitute(f, *eqs) for f in rest] if eqs else rest
    for _ in range(6):
        m = {}

        def walk(t):
            if not z3.is_app(t):
                return
            for c in t.children():
                walk(c)
            if t.decl().kind() in (z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT) and not any(has_floor(c) for c in t.children()):
                m.setdefault(t.sexpr(), (t, z3.Int("flr!%s" % zlib.crc32(z3.simplify(t.arg(0)).sexpr().encode()))))
        for f in fs:
            walk(f)
        if not m:
            break
        sub, extra = [], []
        for t, k in m.values():
            x = z3.simplify(t.arg(0))
            if t.decl().kind() == z3.Z3_OP_TO_INT and intlike(x):
                sub.append((t, to_int(x)))
                continue
            if t.decl().kind() == z3.Z3_OP_IS_INT and intlike(x):
                sub.append((t, z3.BoolVal(True)))
                continue
            extra += [z3.ToReal(k) <= x, x < z3.ToReal(k) + 1]
            sub.append((t, k if t.decl().kind() == z3.Z3_OP_TO_INT else x == z3.ToReal(k)))
        fs = extra + [z3.substitute(f, *sub) for f in fs]
    return [to_ints(z3.simplify(f)) for f in fs]


def to_ints(f):
    """Comparisons between integer-valued real terms become integer comparisons."""
    if not z3.is_app(f) or f.num_args() == 0 or f.sort() != B:
        return f
    k = f.decl().kind()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and f.num_args() == 2 and f.arg(0).sort() == R:
        a, b = f.children()
        if intlike(a) and intlike(b):
            a, b = to_int(a), to_int(b)
            return {z3.Z3_OP_LE: lambda: a <= b, z3.Z3_OP_GE: lambda: a >= b, z3.Z3_OP_LT: lambda: a < b, z3.Z3_OP_GT: lambda: a > b,
                    z3.Z3_OP_EQ: lambda: a == b, z3.Z3_OP_DISTINCT: lambda: a != b}[k]()
        return f
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
        ch = [to_ints(c) for c in f.children()]
        return {z3.Z3_OP_AND: lambda: z3.And(*ch), z3.Z3_OP_OR: lambda: z3.Or(*ch), z3.Z3_OP_NOT: lambda: z3.Not(ch[0]),
                z3.Z3_OP_IMPLIES: lambda: z3.Implies(*ch)}[k]()
    return f
