"""Shared model for the application classes: docplex models, graphs, results.

A docplex expression is its value at the generic point pt (or at the valuation `point` given to setup_app);
the imported QuadraticProgram is described by the docplex model (contract C11)."""
from .common import *
from pv.values import *
import ast

APP = PRE + "applications."
F0 = z3.BoolVal(False)
BN = z3.Const("qn", Name)
BITS = [z3.ForAll([BN], z3.Or(pt(BN) == 0, pt(BN) == 1), patterns=[pt(BN)]),
        z3.ForAll([BN], pt(BN) * pt(BN) == pt(BN), patterns=[pt(BN)])]


def setup_app(point=None):
    eng = setup()
    install(eng, point or (lambda nm: pt(nm)))
    return eng


# ------------------------------------------------------------------ docplex
def new_model(eng, a, k):
    return eng.new(ObjV("DModel", {"vars": eng.new(ListV([])), "cons": eng.new(ListV([])), "objective": None, "sense": None, "name": None}))


def model_var(kind, point):
    def fn(eng, a, k):
        names = ["name"] if kind == 1 else ["lb", "ub", "name"]
        vals = dict(zip(names, a[1:]))
        vals.update(k)
        if vals.get("name") is None or set(vals) - set(names):
            raise Unsupported("docplex variable")
        nm = lib.as_name(eng, vals["name"])
        lst = aprog.fields(eng, a[0])["vars"]
        lib.append(eng, lst, Rec("dvar", {"name": nm, "type": z3.IntVal(kind)}))
        return DExpr(point(nm))
    return fn


def model_sum(eng, a, k):
    v = a[1]
    if isinstance(v, Ref) and isinstance(eng.cell(v), DictV) and eng.cell(v).kind == "dict":
        raise Unsupported("docplex sum over a dict")
    r = lib.seq_sum(eng, v)
    return r if isinstance(r, DExpr) else DExpr(real(r))


def model_objective(sense):
    def fn(eng, a, k):
        aprog.setf(eng, a[0], "objective", DExpr(lib.dexpr_term(a[1])))
        aprog.setf(eng, a[0], "sense", sense)
    return fn


def add_constraint(eng, a, k):
    c = a[1]
    if not isinstance(c, DCons):
        raise Unsupported("docplex constraint %r" % (c,))
    lib.append(eng, aprog.fields(eng, a[0])["cons"], c)
    return c


def add_constraints(eng, a, k):
    s = lib.iterate(eng, a[1])
    lst = aprog.fields(eng, a[0])["cons"]
    c = eng.cell(lst)
    if c.base is not None or not all(isinstance(g.val, DCons) for g in s.segs):
        raise Unsupported("add_constraints")
    eng.put(lst, ListV(c.segs + list(s.segs)))


def from_docplex(eng, a, k):
    m = a[1]
    if not (isinstance(m, Ref) and isinstance(eng.cell(m), ObjV) and eng.cell(m).cls == "DModel"):
        raise Unsupported("from_docplex of %r" % (m,))
    f = eng.cell(m).fields
    d = {"vars": eng.cell(f["vars"]), "cons": eng.cell(f["cons"]), "objective": f["objective"], "sense": f["sense"]}
    aprog.setf(eng, a[0], "docplex", Rec("imported", d))


# ------------------------------------------------------------------ graphs
class Graph:
    """Undirected graph on nodes 0..n-1 with edge enumeration (eu(k), ev(k)), k < M."""

    def __init__(self, eng, complete=False):
        self.n, self.M, self.MC = z3.Int("nodes"), z3.Int("edges"), z3.Int("nonedges")
        F = z3.Function
        self.eu, self.ev, self.w = F("eu", I, I), F("ev", I, I), F("weight", I, R)
        self.cu, self.cv = F("cu", I, I), F("cv", I, I)
        self.W = F("dist", I, I, R)
        k = z3.Int("qk")
        inr = lambda t: z3.And(t >= 0, t < self.n)
        eng.facts += [self.n >= 1, self.M >= 0, self.MC >= 0]
        for f in (self.eu, self.ev, self.cu, self.cv):
            eng.facts.append(z3.ForAll([k], inr(f(k)), patterns=[f(k)]))
        eng.facts.append(z3.ForAll([k], self.cu(k) != self.cv(k), patterns=[self.cu(k)]))
        self.complete = complete
        self.defaulted = None
        self.eng = eng

    def rec(self, own=False):
        return Rec("graph", {"g": self, "own": own})


def graph_ctor(eng, a, k):
    if len(a) != 1 or not (isinstance(a[0], Rec) and a[0].kind == "graph"):
        raise Unsupported("Graph constructor")
    return Rec("graph", dict(a[0].attrs, own=True))


def edge_index(g, i, j):
    """k if (i, j) is syntactically the k-th edge."""
    if all(isz(t) and z3.is_app(t) and t.num_args() == 1 for t in (i, j)) and i.arg(0).eq(j.arg(0)):
        ds = {i.decl().name(), j.decl().name()}
        if ds == {"eu", "ev"}:
            return i.arg(0)
    return None


def edges_getitem(eng, a, k):
    e, key = a
    g = e.attrs["g"]
    if not (isinstance(key, tuple) and len(key) == 2):
        raise Unsupported("edge key")
    i, j = (lib.num(x) for x in key)
    return Rec("edata", {"g": g, "i": i, "j": j, "own": e.attrs["own"]})


def edata_getitem(eng, a, k):
    d, key = a
    g, i, j = d.attrs["g"], d.attrs["i"], d.attrs["j"]
    if key != "weight":
        raise Unsupported("edge attribute %r" % (key,))
    if g.complete:
        eng.obls.append(("only existing edges are looked up", list(eng.pc), z3.And(i != j, i >= 0, j >= 0, i < g.n, j < g.n)))
        return g.W(i, j)
    x = edge_index(g, i, j)
    if x is None:
        raise Unsupported("lookup of a derived edge")
    eng.obls.append(("edges without weight count as 1", list(eng.pc), g.isset(eng, x)))
    return g.w(x)


def edata_setdefault(eng, a, k):
    d = a[0]
    g = d.attrs["g"]
    if a[1] != "weight" or len(a) != 3:
        raise Unsupported("edge attribute")
    x = edge_index(g, d.attrs["i"], d.attrs["j"])
    if x is None:
        raise Unsupported("default of a derived edge")
    eng.obls.append(("edges without weight count as 1", list(eng.pc), real(a[2]) == 1))
    eng.obls.append(("the caller's graph is not modified", list(eng.pc), z3.BoolVal(bool(d.attrs["own"]))))
    lib.setitem(eng, g.cell, x, True)
    return g.w(x)


def edge_seq(eng, g, comp=False):
    b = Binder(freshi(), z3.IntVal(0), g.MC if comp else g.M)
    f = (g.cu, g.cv) if comp else (g.eu, g.ev)
    return SeqV([Seg([b], TRUE, (f[0](b.var), f[1](b.var)))])


# ------------------------------------------------------------------ values passed to interpret
def vec_iter(eng, a, k):
    v = a[0]
    b = Binder(freshi(), z3.IntVal(0), lib.num(v.attrs["len"]))
    return SeqV([Seg([b], TRUE, aprog.vec_entry(v, b.var))])


def install(eng, point):
    N = lambda f: NativeV("", f)
    eng.natives["docplex.mp.model.Model"] = NType("docplex.mp.model.Model", new_model)
    H = eng.obj_handlers
    M = "DModel"
    H[M, "binary_var"], H[M, "continuous_var"], H[M, "integer_var"] = (model_var(t, point) for t in (1, 0, 2))
    H[M, "sum"] = H[M, "sum_vars"] = model_sum
    H[M, "minimize"], H[M, "maximize"] = model_objective(1), model_objective(-1)
    H[M, "add_constraint"], H[M, "add"] = add_constraint, add_constraint
    H[M, "add_constraints"] = add_constraints
    H["AProg", "from_docplex"] = from_docplex
    R_ = eng.rec_handlers
    eng.natives["networkx.Graph"] = NType("networkx.Graph", graph_ctor)
    eng.natives["networkx.complement"] = N(lambda e, a, k: Rec("cgraph", {"g": a[0].attrs["g"]}))
    R_["graph", "copy"] = lambda e, a, k: a[0]
    R_["graph", "number_of_nodes"] = R_["graph", "__len__"] = R_["graph", "order"] = lambda e, a, k: a[0].attrs["g"].n
    R_["graph", "edges"] = (lambda e, o: Rec("gedges", {"g": o.attrs["g"], "own": o.attrs["own"]}),)
    R_["cgraph", "edges"] = (lambda e, o: Rec("cedges", {"g": o.attrs["g"]}),)
    R_["gedges", "__iter__"] = lambda e, a, k: edge_seq(e, a[0].attrs["g"])
    R_["gedges", "__call__"] = R_["cedges", "__call__"] = lambda e, a, k: a[0]
    R_["cedges", "__iter__"] = lambda e, a, k: edge_seq(e, a[0].attrs["g"], True)
    R_["gedges", "__getitem__"] = edges_getitem
    R_["edata", "__getitem__"] = edata_getitem
    R_["edata", "get"] = edata_get
    R_["edata", "setdefault"] = edata_setdefault
    R_["vec", "__iter__"] = vec_iter
    old = eng.rec_isinstance

    def isinst(v, t):
        n = lib.type_name(t)
        if v.kind == "optres":
            return n == "OptimizationResult"
        if v.kind == "graph":
            return n == "Graph"
        if v.kind == "vec":
            return n == ("list" if v.attrs.get("list") else "ndarray")
        return old(v, t)
    eng.rec_isinstance = isinst

    def isset(self, e, k):
        r = lib.contains(e, self.cell, k)
        return z3.BoolVal(r) if isinstance(r, bool) else r
    Graph.isset = isset


def edata_get(eng, a, k):
    d = a[0]
    g = d.attrs["g"]
    if a[1] == "weight" and len(a) == 3:
        x = edge_index(g, d.attrs["i"], d.attrs["j"])
        if x is not None:
            eng.obls.append(("edges without weight count as 1", list(eng.pc), z3.Or(g.isset(eng, x), real(a[2]) == 1)))
            return g.w(x)
    raise Unsupported("edge attribute lookup")


def graph(eng, complete=False):
    g = Graph(eng, complete)
    g.cell = eng.new(DictV())  # the edges whose weight is known to be set
    return g


def result_forms(f, n):
    """The two accepted argument forms of interpret."""
    v = vec(f, n)
    return [("vector", v), ("result object", Rec("optres", {"x": v}))]


# ------------------------------------------------------------------ checks
def imported(ctx, nm, p):
    F = p.cells[p.val.id].fields if isinstance(p.val, Ref) and isinstance(p.cells.get(p.val.id), ObjV) else {}
    m = F.get("docplex")
    if not ctx.fact(nm + "the program imported from the model is returned", m is not None, str(p.val)):
        return None
    return m.attrs


def binary_vars(ctx, nm, facts, m, ranges, guard=None):
    """Variables are binary, one per index tuple, in lexicographic order; returns name(i, ..) or None."""
    segs = m["vars"].segs
    ok = len(segs) == 1 and len(segs[0].binders) == len(ranges)
    if not ctx.fact(nm + "variables: one sequence", ok, str(segs)[:300]):
        return None
    s = segs[0]
    hyp = facts + [b.range() for b in s.binders]
    for b, n in zip(s.binders, ranges):
        ctx.valid(nm + "variables: index range", facts, z3.And(b.lo == 0, b.hi == n))
    ctx.valid(nm + "variables: all present and binary", hyp, z3.And(s.guard == (guard(*[b.var for b in s.binders]) if guard else TRUE), z3.Implies(s.guard, s.val.attrs["type"] == 1)))
    name = lambda *ix: subst(s.val.attrs["name"], list(zip([b.var for b in s.binders], ix)))
    fr = [freshi() for _ in s.binders]
    same = z3.And(*[b.var == v for b, v in zip(s.binders, fr)])
    ctx.valid(nm + "variables: distinct names", [], z3.Implies(s.val.attrs["name"] == name(*fr), same))
    return name


def objective(ctx, nm, facts, m, sense, spec):
    if not ctx.fact(nm + "objective sense", m["sense"] == sense or spec is None and m["sense"] in (None, 1), str(m["sense"])):
        return
    got = m["objective"].term if m["objective"] is not None else z3.RealVal(0)
    ctx.eq(nm + "objective value", facts, got, spec if spec is not None else z3.RealVal(0))


def _diff(c):
    """lhs - rhs oriented so that the constraint is diff <= 0 or diff == 0."""
    d = c.lhs - c.rhs
    if c.sense in (">=",):
        return -d, "<="
    return d, c.sense


def same_range(facts, binders, q, r):
    """Binder q ranges over [lo, hi): r is hi, (lo, hi), or a function of the earlier indices."""
    if callable(r) and not isz(r):
        r = r(*[b.var for b in binders[:q]])
    lo, hi = r if isinstance(r, tuple) else (z3.IntVal(0), r)
    b = binders[q]
    P = norm.Prover(facts + [x.range() for x in binders[:q]], 3000)
    return all(z3.is_true(z3.simplify(x == y)) or P.valid(x == y, 2000)[0] or P.eq(real(lib.undg(x)), real(y))[0] for x, y in ((b.lo, lo), (b.hi, hi)))


def family(ctx, nm, facts, segs, spec):
    """Constraint sequences of the model against the specified families: spec = [(label, ranges, guard(ix), cond)] where cond(ix) is
    ('bool', term) - a condition on binary points - or ('sum', term, sense) meaning term sense 0.  Each model sequence is matched
    with one family over the same index ranges."""
    left = list(spec)
    for k, s in enumerate(segs):
        c = s.val
        found, why = None, ""
        for f in left:
            label, ranges, guard, cond = f
            if len(ranges) != len(s.binders):
                continue
            ix = [b.var for b in s.binders]
            if not all(same_range(facts, s.binders, q, r) for q, r in enumerate(ranges)):
                why += "; %s: range" % label
                continue
            hyp = facts + [b.range() for b in s.binders]
            if norm.check(hyp + [s.guard != guard(*ix)], 3000)[0] != z3.unsat:
                why += "; %s: selection" % label
                continue
            kind = cond(*ix)
            h2 = hyp + [s.guard]
            if kind[0] == "bool":
                got = {"<=": c.lhs <= c.rhs, ">=": c.lhs >= c.rhs, "==": c.lhs == c.rhs}[c.sense]
                ok = norm.Prover(h2 + BITS, 4000).valid(got == kind[1], 4000)[0]
            else:
                d, se = _diff(c)
                ok = se == kind[2] and norm.Prover(h2, 4000).eq(lib.undg(d), kind[1])[0]
                if not ok and se == kind[2] == "==":
                    ok = norm.Prover(h2, 4000).eq(lib.undg(-d), kind[1])[0]
            if ok:
                found = f
                break
            why += "; %s: condition" % label
        ctx.fact("%sconstraint sequence %d is one of the specified conditions" % (nm, k), found is not None, "%s%s" % (s, why))
        if found is not None:
            left.remove(found)
    ctx.fact(nm + "every specified condition is a constraint", not left, str([f[0] for f in left]))


def one_list(ctx, nm, facts, cells, ref, hi, cond, val):
    """The list is [val(b) for b in range(hi) if cond(b)]."""
    c = cells[ref.id] if isinstance(ref, Ref) else None
    segs = [s for s in c.segs if not z3.is_false(z3.simplify(s.guard))] if isinstance(c, ListV) else []
    ok = isinstance(c, ListV) and len(segs) == 1 and len(segs[0].binders) == 1 and c.unordered is not True
    if isinstance(c, ListV) and len(segs) > 1 or not isinstance(c, ListV):
        raise Unsupported("form of the returned list: %s" % (c,))
    if not ctx.fact(nm + "one ordered selection", ok, str(c)[:200]):
        return
    s = segs[0]
    b = s.binders[0]
    hyp = facts + [b.range()]
    ctx.valid(nm + "all indices in order", facts, z3.And(b.lo == 0, b.hi == hi))
    ctx.valid(nm + "selected exactly if encoded", hyp, s.guard == cond(b.var))
    v, w = s.val, val(b.var)
    if isinstance(v, Rec) and isinstance(w, Rec):
        e = lib.unify(v, w)
        ctx.valid(nm + "the selected entries", hyp + [s.guard], F0 if e is None else band(*e))
    elif is_num(v) and is_num(w):
        ctx.valid(nm + "the selected entries", hyp + [s.guard], real(v) == real(w))
    elif isinstance(v, Ref):
        raise Unsupported("form of the returned entries: %s" % (v,))
    else:
        ctx.fact(nm + "the selected entries", False, str(v))
