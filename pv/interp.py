"""Symbolic executor for the Python subset, driven by the ASTs of /repo's current source."""
import ast
import os

import z3

from .terms import *
from .values import *
from . import norm

REPO = os.environ.get("PV_REPO", "/repo")
PKG = "qiskit_optimization"


INLINE = object()   # an override that declines: the callee's body is executed instead of its contract


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class RaiseEx(Exception):
    def __init__(self, exc):
        self.exc = exc


class Infeasible(Exception):
    pass


class Path:
    def __init__(self, pc, out, val, cells):
        self.pc, self.out, self.val, self.cells = pc, out, val, cells

    def cond(self, aux=()):
        return band(*[p for p in self.pc if p.get_id() not in aux])


class Module:
    def __init__(self, eng, dotted):
        self.eng, self.name = eng, dotted
        rel = dotted.replace(".", "/")
        path = os.path.join(REPO, rel + ".py")
        if not os.path.exists(path):
            path = os.path.join(REPO, rel, "__init__.py")
        if not os.path.exists(path):
            raise Unsupported("module %s not found" % dotted)
        self.path = path
        self.is_pkg = path.endswith("__init__.py")
        self.tree = ast.parse(open(path).read())
        self.names = {}
        self.nodes = {}
        for n in self.tree.body:
            self._scan(n)

    def _scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.nodes[n.name] = n
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.nodes[(a.asname or a.name).split(".")[0]] = (n, a)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.nodes[n.targets[0].id] = n
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.nodes[n.target.id] = n
        elif isinstance(n, ast.Try):
            for s in n.body + n.orelse:
                self._scan(s)
        elif isinstance(n, ast.If):
            for s in n.body:
                self._scan(s)

    def get(self, name):
        if name in self.names:
            return self.names[name]
        n = self.nodes.get(name)
        if n is None:
            raise KeyError(name)
        over = self.eng.overrides.get("%s.%s" % (self.name, name))
        if over is not None:
            v = over
        elif isinstance(n, ast.FunctionDef):
            v = FuncV(n, None, self, qual="%s.%s" % (self.name, n.name))
            v.defaults = [self.eng.eval(d, Scope(self)) for d in n.args.defaults]
        elif isinstance(n, ast.ClassDef):
            v = self.eng.make_class(n, self)
        elif isinstance(n, tuple):
            v = self.eng.do_import(n[0], n[1], self)
        else:
            v = self.eng.eval(n.value, Scope(self))
        self.names[name] = v
        return v


class Scope:
    """Lexical scope: chain of frames (cells), then the module, then builtins."""

    def __init__(self, module, frames=()):
        self.module, self.frames = module, tuple(frames)


class Engine:
    def __init__(self, overrides=None, natives=None):
        self.loop_hooks = []     # loops with a stated invariant: hook(eng, seq, assign, body, scope) -> handled
        self.cheap = False
        self.steady = False      # cells of a path get the same numbers each time it is executed again
        self.xid = self.xcount = 0
        self.call_hooks = []
        self.while_hooks = []    # while loops with an invariant rule: hook(eng, statement, scope) -> handled
        self.cells = {}
        self.pc = []
        self.dec, self.dpos, self.alts = [], 0, []
        self.depth = 0
        self.next = 1
        self.modules = {}
        self.overrides = dict(overrides or {})
        self.natives = dict(natives or {})
        self.facts = []
        self.feas_ms = 1500
        self.instantiators = {}   # qualified class name -> what constructing it gives (the class itself stays what it is)
        self.used = {}            # repo functions executed: qualified name -> file
        self.assumed = set()      # natives used
        self.fcache = {}
        self.obls = []            # side obligations: (name, path condition, goal)
        self.decided = {}        # ids of path decisions (disjoint from aux)
        self.aux = {}             # ids of path facts that are consequences/definitions, not decisions
        self.binders = []         # generic indices of the loops being summarised
        self.frozen = set()
        self.raw, self.real_classes = {}, {}
        from . import lib
        lib.install(self)

    # ------------------------------------------------------------------ state
    def new(self, content):
        r = Ref(self.next)
        self.next += 1
        self.cells[r.id] = content
        return r

    def cell(self, r):
        return self.cells[r.id]

    def put(self, r, content):
        if getattr(self.cells.get(r.id), "frozen", False):
            raise Unsupported("modification of a shared container")
        self.cells[r.id] = content

    # ------------------------------------------------------------------ paths
    def feasible(self, extra):
        key = (tuple(p.get_id() for p in self.pc), extra.get_id())
        hit = self.fcache.get(key)
        if hit is None and self.cheap:        # quantifier-free facts only: more paths than necessary, never fewer
            fs = [f for f in self.facts + self.pc if not z3.is_quantifier(f)]
            hit = (norm.check(fs + [extra], 600)[0] != z3.unsat, list(self.pc), extra)
            self.fcache[key] = hit
        if hit is None:
            r = norm.ground_check(self.facts + self.pc + [extra])
            if r != z3.unsat:
                r, _ = norm.check(self.facts + self.pc + [extra], self.feas_ms)
            hit = (r != z3.unsat, list(self.pc), extra)
            self.fcache[key] = hit
        return hit[0]

    def entailed(self, cond):
        return not self.feasible(z3.Not(cond))

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.dpos < len(self.dec):
            c = self.dec[self.dpos]
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if not t and not f:
                raise Infeasible()
            c = t
            if t and f:
                self.alts.append(self.dec[:self.dpos] + [False])
            self.dec = self.dec[:self.dpos] + [c]
        self.dpos += 1
        lit = cond if c else z3.Not(cond)
        if lit.get_id() in self.aux:      # the same formula is a derived fact elsewhere: keep the decision apart
            lit = z3.And(lit, lit)
        self.decided[lit.get_id()] = lit
        self.pc.append(lit)
        self.expose(cond, c)
        return c

    def expose(self, cond, positive):
        """Facts behind existential atoms: a witness (Skolem function of the enclosing loop indices), or a universal."""
        f = self.exposed(cond, positive)
        if f is not None:
            for g in (f.children() if z3.is_and(f) else [f]):
                self.aux_fact(g)

    def exposed(self, cond, positive):
        from . import lib
        if z3.is_not(cond):
            return self.exposed(cond.arg(0), not positive)
        if z3.is_and(cond) and positive or z3.is_or(cond) and not positive:
            fs = [f for f in (self.exposed(c, positive) for c in cond.children()) if f is not None]
            return band(*[g for f in fs for g in (f.children() if z3.is_and(f) else [f])]) if fs else None
        if z3.is_or(cond) or z3.is_and(cond):
            if not sum_apps(cond, EXISTS):
                return None
            fs = [(self.exposed(c, positive), c) for c in cond.children()]
            return bor(*[f if f is not None else (c if positive else z3.Not(c)) for f, c in fs])
        if z3.is_app(cond) and cond.decl().kind() == z3.Z3_OP_UNINTERPRETED and cond.decl().name() in EXISTS:
            nb, g = open_def(cond, EXISTS)
            body = band(*([b.range() for b in nb] + [g]))
            if positive:
                m = [(b.var, lib.skolem(self, "wit", I)) for b in nb]
                f = subst(body, m)
                e = self.exposed(subst(g, m), True)
                return f if e is None else band(f, e)
            return z3.ForAll([b.var for b in nb], z3.Not(body))
        return None

    def aux_fact(self, f):
        if f.get_id() in self.decided:
            f = z3.And(f, f)
        self.aux[f.get_id()] = f
        self.pc.append(f)

    def explore(self, thunk, max_paths=400):
        base_cells, base_pc = dict(self.cells), list(self.pc)
        saved = (self.dec, self.dpos, self.alts, self.xid)
        stack, results = [[]], []
        self.depth += 1
        self.xcount += 1
        xid, base_next, top = self.xcount, self.next, self.next
        try:
            while stack:
                if len(results) > max_paths:
                    raise Unsupported("too many paths")
                self.cells, self.pc = dict(base_cells), list(base_pc)
                self.dec, self.dpos, self.alts, self.xid = stack.pop(), 0, [], xid
                if self.steady:
                    top = max(top, self.next)
                    self.next = base_next
                try:
                    try:
                        out, val = "normal", thunk()
                    except ReturnEx as ex:
                        out, val = "return", ex.v
                    except BreakEx:
                        out, val = "break", None
                    except ContinueEx:
                        out, val = "normal", None
                    except RaiseEx as ex:
                        out, val = "raise", ex.exc
                    results.append(Path(self.pc[len(base_pc):], out, val, self.cells))
                except Infeasible:
                    pass
                stack.extend(self.alts)
        finally:
            self.depth -= 1
            self.cells, self.pc = base_cells, base_pc
            self.dec, self.dpos, self.alts, self.xid = saved
            self.next = max(top, self.next)
        return results

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        if f.get_id() in self.aux:
            f = z3.And(f, f)
        self.decided[f.get_id()] = f
        self.pc.append(f)

    def raise_(self, cls, msg=""):
        raise RaiseEx(ExcV(cls, (msg,)))

    # ------------------------------------------------------------------ modules and classes
    def module(self, dotted):
        if dotted not in self.modules:
            self.modules[dotted] = Module(self, dotted)
        return self.modules[dotted]

    def resolve(self, dotted):
        """Value of a dotted repo name such as pkg.mod.Class."""
        mod, name = dotted.rsplit(".", 1)
        return self.module(mod).get(name)

    def do_import(self, node, alias, module):
        if isinstance(node, ast.Import):
            return self.external(alias.name if alias.asname else alias.name.split(".")[0])
        base = node.module or ""
        if node.level:
            parts = module.name.split(".")
            if not module.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (node.level - 1)]
            base = ".".join(parts + ([node.module] if node.module else []))
        if base.startswith(PKG):
            over = self.overrides.get("%s.%s" % (base, alias.name))
            if over is not None:
                return over
            m = self.module(base)
            try:
                return m.get(alias.name)
            except KeyError:
                return self.external(base + "." + alias.name)
        return self.external(base + "." + alias.name)

    def raw_class(self, dotted):
        """The class as written, whatever contract overrides it."""
        mod, name = dotted.rsplit(".", 1)
        if dotted not in self.raw:
            m = self.module(mod)
            if name not in m.nodes:
                raise Unsupported("class %s not found" % dotted)
            self.raw[dotted] = self.make_class(m.nodes[name], m)
        return self.raw[dotted]

    def external(self, dotted):
        if dotted in self.natives:
            return self.natives[dotted]
        return NModule(dotted)

    def make_class(self, node, module):
        c = ClassV(node.name, node, module)
        full = "%s.%s" % (module.name, node.name)
        for b in node.bases:
            try:
                c.bases.append(self.eval(b, Scope(module)))
            except Unsupported:
                pass
        c.enum = any(isinstance(b, NModule) and b.name == "enum.Enum" or isinstance(b, ClassV) and b.enum for b in c.bases)
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                kind = "method"
                for d in n.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod", "abstractmethod"):
                        kind = d.id if d.id != "abstractmethod" else kind
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        kind = "setter"
                f = FuncV(n, None, module, c, qual="%s.%s" % (full, n.name))
                if kind == "setter":
                    c.members[n.name + "=setter"] = ("setter", f)
                else:
                    c.members[n.name] = (kind, f)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                if c.enum:
                    c.members[n.targets[0].id] = ("const", EnumV(node.name, n.targets[0].id, ast.literal_eval(n.value)))
                else:
                    c.members[n.targets[0].id] = ("lazy", n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                c.members.setdefault("=fields", ("fields", []))[1].append((n.target.id, n.value))
        for d in node.decorator_list:
            if isinstance(d, ast.Name) and d.id == "dataclass":
                c.members["=dataclass"] = ("const", True)
        if c.enum:
            self.enum_classes.append(c)
        return c

    def mro(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, ClassV):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        return out

    def find_member(self, c, name):
        for k in self.mro(c):
            if name in k.members:
                return k, k.members[name]
        return None, None

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, BoundV):
            if isinstance(f.func, NativeV):
                self.assumed.add(f.func.name)
                return f.func.fn(self, [f.self] + args, kwargs)
            return self.call(f.func, [f.self] + args, kwargs)
        if isinstance(f, NativeV):
            if f.name:
                self.assumed.add(f.name)
            return f.fn(self, args, kwargs)
        if isinstance(f, FuncV):
            for h in self.call_hooks:        # calls answered by a contract instead of the body: hook(eng, f, args, kwargs) -> (value,) or None
                r = h(self, f, args, kwargs)
                if r is not None:
                    return r[0]
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, NType):
            if f.ctor is None:
                raise Unsupported("constructor of %s" % f.name)
            self.assumed.add(f.name)
            return f.ctor(self, args, kwargs)
        if isinstance(f, NoOp):
            return None
        if isinstance(f, NModule):
            raise Unsupported("no contract for %s" % f.name)
        if isinstance(f, Ref):
            c = self.cell(f)
            if isinstance(c, ObjV):
                m = self.getattr(f, "__call__")
                return self.call(m, args, kwargs)
        raise Unsupported("call of %r" % (f,))

    def call_func(self, f, args, kwargs):
        if len(self._callstack) > 40:
            raise Unsupported("recursion")
        over = self.overrides.get(f.qual) if f.qual else None
        if isinstance(over, NativeV):
            r = self.call(over, args, kwargs)
            if r is not INLINE:
                return r
        if f.qual:
            self.used[f.qual] = f.module.path if f.module else ""
        node = f.node
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        fields = {}
        kwargs = dict(kwargs)
        if len(args) > len(params) and not a.vararg:
            self.raise_("TypeError", "too many arguments")
        for p, v in zip(params, args):
            fields[p] = v
        if a.vararg:
            fields[a.vararg.arg] = tuple(args[len(params):])
        for k in list(kwargs):
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                if k in fields:
                    self.raise_("TypeError", "multiple values")
                fields[k] = kwargs.pop(k)
        if a.kwarg:
            fields[a.kwarg.arg] = self.new(DictV([Piece([], TRUE, k, v) for k, v in kwargs.items()]))
        elif kwargs:
            self.raise_("TypeError", "unexpected keyword %s" % list(kwargs))
        sc0 = Scope(f.module, f.frame.frames if f.frame else ())
        nd = len(a.defaults)
        for k, p in enumerate(params):
            if p not in fields:
                j = k - (len(params) - nd)
                if j < 0:
                    self.raise_("TypeError", "missing argument %s" % p)
                fields[p] = f.defaults[j] if f.defaults else self.eval(a.defaults[j], sc0)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in fields:
                if d is None:
                    self.raise_("TypeError", "missing argument %s" % x.arg)
                fields[x.arg] = f.kwdefaults.get(x.arg) if x.arg in f.kwdefaults else self.eval(d, sc0)
        fr = self.new(ObjV("frame", fields))
        sc = Scope(f.module, (fr,) + (f.frame.frames if f.frame else ()))
        sc.cls = f.cls
        sc.selfname = params[0] if params else None
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, sc)
        if _is_generator(node):
            raise Unsupported("generator function %s" % f.qual)
        self._callstack.append(f.qual)
        try:
            self.block(node.body, sc)
        except ReturnEx as ex:
            return ex.v
        finally:
            self._callstack.pop()
        return None

    _callstack = []

    def instantiate(self, c, args, kwargs):
        mk = self.instantiators.get("%s.%s" % (c.module.name, c.name))
        if mk is not None:
            return mk(self, c, args, kwargs)
        over = self.overrides.get("%s.%s" % (c.module.name, c.name))
        if over is not None and over is not c:
            return self.call(over, args, kwargs)
        if c.enum:
            for k, m in c.members.items():
                if m[0] == "const" and m[1].value == args[0]:
                    return m[1]
            if isz(args[0]):
                return SymEnum(c.name, args[0])
            self.raise_("ValueError")
        if self.is_exception(c):
            return ExcV(c.name, tuple(args))
        r = self.new(ObjV(c))
        if "=dataclass" in c.members:
            names = [n for n, _ in c.members["=fields"][1]]
            vals = dict(zip(names, args))
            vals.update(kwargs)
            self.put(r, ObjV(c, vals))
            return r
        k, m = self.find_member(c, "__init__")
        if m:
            self.call(m[1], [r] + list(args), kwargs)
        return r

    def is_exception(self, c):
        if isinstance(c, ClassV):
            return any(self.is_exception(b) for b in c.bases)
        n = getattr(c, "name", "")
        return n.split(".")[-1] in ("Exception", "QiskitError", "ValueError", "TypeError", "KeyError", "NotImplementedError", "IndexError", "AttributeError", "RuntimeError")

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        from . import lib
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ObjV):
                if name in c.fields:
                    v = c.fields[name]
                    if isinstance(v, Poison):
                        raise Unsupported("value of %s is undetermined: %s" % (name, v.why))
                    return v
                if isinstance(c.cls, ClassV):
                    k, m = self.find_member(c.cls, name)
                    if m:
                        return self.member(o, c.cls, m)
                    if name == "__class__":
                        return c.cls
                nat = lib.obj_attr(self, o, c, name)
                if nat is not lib.MISSING:
                    return nat
                if isinstance(c.cls, str):
                    # a method of the real class outside the contract interface: its real body runs against the contract model
                    full = self.real_classes.get(c.cls)
                    k, m = self.find_member(self.raw_class(full), name) if full else (None, None)
                    if m is None or m[0] not in ("method", "staticmethod", "classmethod"):
                        raise Unsupported("attribute %s of %s" % (name, c.cls))
                    return self.member(o, k, m)
                self.raise_("AttributeError", name)
            return lib.cell_attr(self, o, c, name)
        if isinstance(o, ClassV):
            k, m = self.find_member(o, name)
            if m:
                if m[0] in ("staticmethod", "method", "property"):
                    return m[1]
                if m[0] == "classmethod":
                    return BoundV(m[1], o)
                if m[0] == "lazy":
                    v = self.eval(m[1], Scope(k.module))
                    k.members[name] = ("const", v)
                    return v
                return m[1]
            if name == "__name__":
                return o.name
            raise Unsupported("attribute %s of %r" % (name, o))
        return lib.value_attr(self, o, name)

    def member(self, o, cls, m):
        kind, v = m
        if kind == "property":
            return self.call(v, [o])
        if kind == "staticmethod":
            return v
        if kind == "classmethod":
            return BoundV(v, cls)
        if kind == "method":
            return BoundV(v, o)
        if kind == "lazy":
            return self.eval(v, Scope(cls.module))
        return v

    def setattr(self, o, name, val):
        from . import lib
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ObjV):
                if isinstance(c.cls, ClassV):
                    k, m = self.find_member(c.cls, name + "=setter")
                    if m:
                        self.call(m[1], [o, val])
                        return
                elif lib.obj_setattr(self, o, c, name, val):
                    return
                f = dict(c.fields)
                f[name] = val
                self.put(o, ObjV(c.cls, f))
                return
        if lib.value_setattr(self, o, name, val):
            return
        raise Unsupported("attribute assignment to %r" % (o,))

    # ------------------------------------------------------------------ names
    def lookup(self, name, sc):
        for fr in sc.frames:
            f = self.cell(fr).fields
            if name in f:
                v = f[name]
                if isinstance(v, Poison):
                    raise Unsupported("value of %s is undetermined: %s" % (name, v.why))
                return v
        if sc.module is not None:
            try:
                return sc.module.get(name)
            except KeyError:
                pass
        if name == "__name__":
            return sc.module.name
        if name not in self.builtins:
            raise Unsupported("name %s" % name)
        b = self.builtins[name]
        return b

    def setlocal(self, name, v, sc):
        fr = sc.frames[0]
        if name in getattr(sc, "nonlocals", ()):
            for fr2 in sc.frames[1:]:
                if name in self.cell(fr2).fields:
                    fr = fr2
                    break
        c = self.cell(fr)
        f = dict(c.fields)
        f[name] = v
        self.put(fr, ObjV(c.cls, f))

    # ------------------------------------------------------------------ statements
    def block(self, body, sc):
        for s in body:
            self.stmt(s, sc)

    def stmt(self, s, sc):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        self.line = getattr(s, "lineno", 0)
        m(s, sc)

    def s_Expr(self, s, sc):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, sc)

    def s_Pass(self, s, sc):
        pass

    def s_Nonlocal(self, s, sc):
        sc.nonlocals = set(getattr(sc, "nonlocals", ())) | set(s.names)

    def s_Import(self, s, sc):
        for a in s.names:
            self.setlocal((a.asname or a.name).split(".")[0], self.do_import(s, a, sc.module), sc)

    s_ImportFrom = s_Import

    def s_Assign(self, s, sc):
        v = self.eval(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, sc), sc)

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.setlocal(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                tail = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], vs[:k]):
                    self.assign(e, x, sc)
                self.assign(t.elts[k].value, self.new(ListV([elem(x) for x in vs[k:len(vs) - tail]])), sc)
                for e, x in zip(t.elts[k + 1:], vs[len(vs) - tail:]):
                    self.assign(e, x, sc)
                return
            for e, x in zip(t.elts, vs):
                self.assign(e, x, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            from . import lib
            lib.setitem(self, self.eval(t.value, sc), self.eval_index(t.slice, sc), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star=False):
        if isinstance(v, tuple):
            if len(v) != n and not star:
                self.raise_("ValueError")
            return list(v)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListV) and c.concrete():
                if len(c.segs) != n and not star:
                    self.raise_("ValueError")
                return [x.val for x in c.segs]
        if isinstance(v, Rec) and "fields" in v.attrs:
            return list(v.attrs["fields"])
        raise Unsupported("unpacking %r" % (v,))

    def s_AugAssign(self, s, sc):
        from . import lib
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, sc)
            new = lib.inplace(self, s.op, cur, self.eval(s.value, sc))
            self.setlocal(t.id, new, sc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            new = lib.inplace(self, s.op, self.getattr(o, t.attr), self.eval(s.value, sc))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            k = self.eval_index(t.slice, sc)
            new = lib.inplace(self, s.op, lib.getitem(self, o, k), self.eval(s.value, sc))
            lib.setitem(self, o, k, new)
        else:
            raise Unsupported("augmented assignment")

    def s_If(self, s, sc):
        if self.truth(self.eval(s.test, sc)):
            self.block(s.body, sc)
        else:
            self.block(s.orelse, sc)

    def s_Return(self, s, sc):
        raise ReturnEx(self.eval(s.value, sc) if s.value is not None else None)

    def s_Break(self, s, sc):
        raise BreakEx()

    def s_Continue(self, s, sc):
        raise ContinueEx()

    def s_Raise(self, s, sc):
        if s.exc is None:
            raise RaiseEx(getattr(self, "_handling", None) or ExcV("Exception"))
        f = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        c = self.eval(f, sc)
        if isinstance(c, ExcV):
            raise RaiseEx(c)
        name = c.name.split(".")[-1] if hasattr(c, "name") else str(c)
        raise RaiseEx(ExcV(name))

    def s_Assert(self, s, sc):
        if not self.truth(self.eval(s.test, sc)):
            self.raise_("AssertionError")

    def s_FunctionDef(self, s, sc):
        f = FuncV(s, sc, sc.module, qual="")
        f.defaults = [self.eval(d, sc) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.eval(d, sc) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        self.setlocal(s.name, f, sc)

    def s_Delete(self, s, sc):
        from . import lib
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                lib.delitem(self, self.eval(t.value, sc), self.eval_index(t.slice, sc))
            else:
                raise Unsupported("del")

    def s_Try(self, s, sc):
        if s.finalbody:
            raise Unsupported("finally")
        try:
            self.block(s.body, sc)
        except RaiseEx as ex:
            for h in s.handlers:
                if h.type is None or self.exc_matches(ex.exc, self.eval(h.type, sc)):
                    if h.name:
                        self.setlocal(h.name, ex.exc, sc)
                    self._handling = ex.exc
                    self.block(h.body, sc)
                    return
            raise
        else:
            self.block(s.orelse, sc)

    def exc_matches(self, e, t):
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            n = x.name.split(".")[-1]
            if n in (e.cls, "Exception", "BaseException") or (n == "QiskitError" and e.cls == "QiskitOptimizationError"):
                return True
            if n == "LookupError" and e.cls in ("KeyError", "IndexError"):
                return True
        return False

    def s_For(self, s, sc):
        from . import loops
        it = self.eval(s.iter, sc)
        seq = self.iterate(it)
        self.iterated = it
        broke = loops.run_for(self, seq, lambda v: self.assign(s.target, v, sc), lambda: self.block(s.body, sc), sc)
        if s.orelse:
            if broke is None:
                raise Unsupported("for/else")
            if not broke:
                self.block(s.orelse, sc)

    def s_While(self, s, sc):
        from . import loops
        loops.run_while(self, s, sc)

    def s_With(self, s, sc):
        raise Unsupported("with")

    # ------------------------------------------------------------------ expressions
    def truth(self, v):
        from . import lib
        return self.branch(lib.truthy(self, v))

    def eval(self, e, sc):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, sc)

    def eval_index(self, e, sc):
        if isinstance(e, ast.Slice):
            return slice(self.eval(e.lower, sc) if e.lower else None, self.eval(e.upper, sc) if e.upper else None,
                         self.eval(e.step, sc) if e.step else None)
        if isinstance(e, ast.Tuple):
            return tuple(self.eval_index(x, sc) for x in e.elts)
        return self.eval(e, sc)

    def e_Constant(self, e, sc):
        if isinstance(e.value, complex):
            return Rec("cplx", {"real": e.value.real, "imag": e.value.imag})
        return e.value

    def e_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def e_Attribute(self, e, sc):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super" and not e.value.args:
            return self.super_attr(e.attr, sc)
        return self.getattr(self.eval(e.value, sc), e.attr)

    def super_attr(self, name, sc):
        s2 = sc
        cls = getattr(s2, "cls", None)
        if cls is None:
            raise Unsupported("super")
        me = self.cell(sc.frames[0]).fields[sc.selfname]
        for b in cls.bases:
            if isinstance(b, ClassV):
                k, m = self.find_member(b, name)
                if m:
                    return self.member(me, cls, m)
        if name == "__init__":
            return NativeV("", lambda eng, a, k: None)
        raise Unsupported("super().%s" % name)

    def e_Call(self, e, sc):
        f = self.eval(e.func, sc)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, sc)
                args += self.unpack(v, 0, True)
            else:
                args.append(self.eval(a, sc))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, sc)
                d = self.cell(v) if isinstance(v, Ref) else None
                if not isinstance(d, DictV) or d.base or any(p.binders or not isinstance(p.key, str) for p in d.pieces):
                    raise Unsupported("**kwargs")
                for p in d.pieces:
                    kwargs[p.key] = p.val
            else:
                kwargs[k.arg] = self.eval(k.value, sc)
        return self.call(f, args, kwargs)

    def e_BinOp(self, e, sc):
        from . import lib
        return lib.binop(self, e.op, self.eval(e.left, sc), self.eval(e.right, sc))

    def e_UnaryOp(self, e, sc):
        from . import lib
        v = self.eval(e.operand, sc)
        if isinstance(e.op, ast.Not):
            t = lib.truthy(self, v)
            return (not t) if isinstance(t, bool) else bnot(t)
        return lib.unop(self, e.op, v)

    def e_BoolOp(self, e, sc):
        from . import lib
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, sc)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return False if isz(v) else v
            if not isand and t:
                return True if isz(v) and v.sort() == B else v
        return v

    def e_Compare(self, e, sc):
        from . import lib
        left = self.eval(e.left, sc)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, sc)
            v = lib.compare(self, op, left, right)
            if len(e.ops) == 1:
                return v
            if isinstance(v, bool):
                v = z3.BoolVal(v)
            acc = v if acc is None else z3.And(acc, v)
            left = right
        return acc

    def e_IfExp(self, e, sc):
        # x if x else {}: the same content in both cases; the two objects may only be read from here on
        if isinstance(e.test, ast.Name) and isinstance(e.body, ast.Name) and e.test.id == e.body.id and isinstance(e.orelse, ast.Dict) and not e.orelse.keys:
            v = self.lookup(e.test.id, sc)
            c = self.cells.get(v.id) if isinstance(v, Ref) else None
            if isinstance(c, DictV) and c.kind in ("dict", "defaultdict") and c.base is None and c.pieces:
                self.put(v, c.copy(frozen=True))
                return self.new(c.copy(kind="dict", default=None, frozen=True))
        return self.eval(e.body, sc) if self.truth(self.eval(e.test, sc)) else self.eval(e.orelse, sc)

    def e_Tuple(self, e, sc):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.unpack(self.eval(x.value, sc), 0, True)
            else:
                out.append(self.eval(x, sc))
        return tuple(out)

    def e_List(self, e, sc):
        return self.new(ListV([elem(v) for v in self.e_Tuple(e, sc)]))

    def e_Set(self, e, sc):
        return self.new(ListV([elem(v) for v in self.e_Tuple(e, sc)], kind="set"))

    def e_Dict(self, e, sc):
        from . import lib
        r = self.new(DictV())
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("** in dict")
            lib.setitem(self, r, self.eval(k, sc), self.eval(v, sc))
        return r

    def e_Subscript(self, e, sc):
        from . import lib
        o = self.eval(e.value, sc)
        return lib.getitem(self, o, self.eval_index(e.slice, sc))

    def e_JoinedStr(self, e, sc):
        from . import lib
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None:
                    parts.append(None)
                    continue
                try:
                    parts.append(self.eval(v.value, sc))
                except Unsupported:
                    parts.append(None)
        return lib.concat_str(self, parts)

    def e_Lambda(self, e, sc):
        f = FuncV(e, sc, sc.module, qual="")
        f.defaults = [self.eval(d, sc) for d in e.args.defaults]
        return f

    def e_Starred(self, e, sc):
        raise Unsupported("starred")

    def iterate(self, v):
        from . import lib
        return lib.iterate(self, v, True)

    # comprehensions: executed as loops appending to a fresh cell
    def comp(self, e, sc, kind):
        from . import lib, loops
        r = self.new(DictV() if kind == "dict" else ListV([], kind="set" if kind == "set" else "list"))
        fr = self.new(ObjV("frame", {}))
        sc2 = Scope(sc.module, (fr,) + sc.frames)
        sc2.cls, sc2.selfname = getattr(sc, "cls", None), getattr(sc, "selfname", None)

        def gen(k):
            if k == len(e.generators):
                if kind == "dict":
                    lib.setitem(self, r, self.eval(e.key, sc2), self.eval(e.value, sc2))
                else:
                    lib.append(self, r, self.eval(e.elt, sc2))
                return
            g = e.generators[k]
            seq = self.iterate(self.eval(g.iter, sc2))

            def body():
                for c in g.ifs:
                    if not self.truth(self.eval(c, sc2)):
                        return
                gen(k + 1)
            loops.run_for(self, seq, lambda v: self.assign(g.target, v, sc2), body, sc2)
        gen(0)
        return r

    def e_ListComp(self, e, sc):
        return self.comp(e, sc, "list")

    def e_SetComp(self, e, sc):
        return self.comp(e, sc, "set")

    def e_GeneratorExp(self, e, sc):
        return self.comp(e, sc, "list")

    def e_DictComp(self, e, sc):
        return self.comp(e, sc, "dict")


def _is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False
