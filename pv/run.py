"""python -m pv.run PID TIER OUT.json: generates and discharges the obligations of contracts/<pid>.py."""
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

import z3

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from pv import norm, terms, values, lib  # noqa: E402
from pv.values import Unsupported  # noqa: E402
from pv.norm import Prover, Giveup  # noqa: E402


MAXPROC = int(os.environ.get("PV_PROCS", 7))


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obls, self.functions, self.assumptions, self.bounded, self.trusted = [], {}, [], [], set()
        self.tags = {}
        self.vac = {"contracts": 0, "paths": 0, "perturbed_goals_rejected": 0}
        self.backends = {}
        self.workers, self.out = [], None
        self.verbose = bool(os.environ.get("PV_VERBOSE"))
        self.only = os.environ.get("PV_ONLY")

    def record(self, name, ok, detail, backend, t0, failed_status="failed"):
        st = "proved" if ok else failed_status
        self.obls.append({"name": name, "status": st, "detail": str(detail)[:1500], "backend": backend, "s": round(time.time() - t0, 3)})
        if ok:
            self.backends[backend] = self.backends.get(backend, 0) + 1
        if self.verbose:
            print(("  ok  " if ok else "  FAIL"), name, "%.2fs" % (time.time() - t0), "" if ok else str(detail).replace("\n", " ")[:int(os.environ.get("PV_DETAIL", 200))], flush=True)

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def beyond(self, what, why):
        """A part of the property no contract here reaches: decided by the bounded runtime contracts only."""
        self.bounded.append({"what": what, "why": why, "expected": True})

    # ---- goals
    def eq(self, name, facts, a, b, timeout=6000, closed=()):
        t0 = time.time()
        norm.CLOSED = {x.decl().name() for t in closed for x in terms.sum_apps(lib.undg(terms.real(t)), terms.SUMS)}
        try:
            pr = Prover(facts, timeout)
            a, b = lib.undg(terms.real(a)), lib.undg(terms.real(b))
            ok, why = pr.eq(a, b)
            if ok and self.vac["perturbed_goals_rejected"] < 3:
                bad = norm.check(facts, 2000)[0] == z3.unsat
                if bad:
                    ok, why = False, "vacuous: the path condition is contradictory"
                else:
                    self.vac["perturbed_goals_rejected"] += 1
        except Giveup as ex:
            ok, why = False, "gave up: %s" % ex
            if not terms.sum_apps(a, terms.SUMS) and not terms.sum_apps(b, terms.SUMS):
                ok, why = Prover(facts, timeout).valid(a == b, timeout)
                ok = bool(ok)
            else:
                norm.CLOSED = set()
                raise Unsupported("%s: the prover %s" % (name, why))
        norm.CLOSED = set()
        self.record(name, ok, why, "sum normal forms + z3" if ok else "", t0)
        return ok

    def ge0(self, name, facts, e, timeout=6000):
        t0 = time.time()
        try:
            ok, why = Prover(facts, timeout).ge0(lib.undg(terms.real(e)))
        except Giveup as ex:
            ok, why = False, "gave up: %s" % ex
        self.record(name, ok, why, "pointwise sums + z3", t0)
        return ok

    def valid(self, name, facts, goal, timeout=8000):
        t0 = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        self.alive(name, facts)
        ok, why = Prover(facts, timeout).valid(goal, timeout)
        if not ok and os.environ.get("PV_DUMP"):
            print("FACTS", [str(f) for f in facts if not z3.is_quantifier(f)], "GOAL", goal)
        self.record(name, bool(ok), why, "z3", t0)
        return bool(ok)

    def alive(self, name, facts):
        """Vacuity guard: every group of paths needs one whose hypotheses z3 cannot refute."""
        tag = name.split(" path ")[0] if " path " in name else None
        n = self.tags.get(tag, 0)
        if tag is None or n < 0 or n > 12:
            return
        self.tags[tag] = n + 1 if norm.check(facts, 200)[0] == z3.unsat else -1
        if self.tags[tag] < 0:
            self.vac["paths"] += 1

    def fact(self, name, ok, why=""):
        """A structural obligation decided by the executor itself (shape of the result)."""
        self.record(name, bool(ok), why, "executor", time.time())
        return bool(ok)

    def side(self, eng, base=0, prefix=""):
        seen = set()
        for name, pc, goal in eng.obls[base:]:
            key = (name, goal.sexpr(), tuple(sorted({p.sexpr() for p in pc})))
            if key in seen:
                continue
            seen.add(key)
            self.valid("%s%s" % (prefix, name), eng.facts + pc, goal)

    def contract(self, name, fn, par=False, limit=300):
        """Generate and discharge the obligations of one contract; par=True: in a forked worker (independent of the others)."""
        if self.only and not any(x in name for x in self.only.split('|')):
            return
        if not par or os.environ.get("PV_SERIAL"):
            return self._contract(name, fn, limit)
        while len(self.workers) >= MAXPROC:
            self.collect(1)
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                before = (dict(norm.STATS), dict(self.vac), dict(self.backends))
                self.obls, self.bounded = [], []
                self.functions, self.trusted = {}, set()
                norm.STATS.update(z3=0, z3_s=0.0)
                self.vac, self.backends = {k: 0 for k in self.vac}, {}
                self._contract(name, fn, limit)
                data = pickle.dumps((self.obls, self.bounded, self.functions, self.trusted, self.vac, self.backends, dict(norm.STATS), self.assumptions))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                sys.stdout.flush()
                os._exit(0)
        os.close(w)
        self.workers.append((pid, r, name))

    def collect(self, n=None):
        k = 0
        while self.workers and (n is None or k < n):
            pid, r, name = self.workers.pop(0)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            k += 1
            if not data:
                self.bounded.append({"what": name, "why": "the proof worker died"})
                continue
            o, bd, fn, tr, vac, be, st, asm = pickle.loads(data)
            self.obls += o
            self.bounded += bd
            self.functions.update(fn)
            self.trusted |= tr
            self.assume(*asm)
            for x in vac:
                self.vac[x] = self.vac.get(x, 0) + vac[x]
            for x in be:
                self.backends[x] = self.backends.get(x, 0) + be[x]
            for x in st:
                norm.STATS[x] += st[x]
            self.dump()

    def dump(self):
        if self.out:
            tmp = self.out + ".tmp"
            json.dump(self.result(), open(tmp, "w"), indent=1, default=str)
            os.replace(tmp, self.out)

    def result(self):
        return {"obligations": self.obls, "functions": sorted("%s" % q for q in self.functions), "assumptions": self.assumptions,
                "bounded": self.bounded, "trusted": sorted(self.trusted), "backends": self.backends,
                "solver_s": round(norm.STATS["z3_s"], 2), "z3_queries": norm.STATS["z3"], "vacuity": self.vac}

    def _contract(self, name, fn, limit):
        n0 = len(self.obls)
        if self.verbose:
            print("==", name, flush=True)
        t0 = time.time()
        self.tags = {}

        def late(*_):
            raise Unsupported("time limit of %d s for one contract" % limit)
        signal.signal(signal.SIGALRM, late)
        signal.alarm(limit)
        try:
            engines = fn(self) or []
            for e in (engines if isinstance(engines, (list, tuple)) else [engines]):
                for q, p in e.used.items():
                    self.functions.setdefault(q, p)
                self.trusted |= {a for a in e.assumed if a}
            dead = [t for t, n in self.tags.items() if n > 0]
            if dead:
                self.bounded.append({"what": name, "why": "vacuous: the hypotheses of every path of %s are contradictory" % ", ".join(dead)})
            if len(self.obls) == n0:
                self.bounded.append({"what": name, "why": "no obligation was generated"})
            self.vac["contracts"] += 1
        except Unsupported as ex:
            self.obls[n0:] = [o for o in self.obls[n0:] if o["status"] == "failed"]
            self.bounded.append({"what": name, "why": "outside the verified subset: %s" % ex})
            if self.verbose:
                print("".join(traceback.format_exc().splitlines(True)[-5:]))
        except Exception as ex:  # an engine defect must never look like a violation
            del self.obls[n0:]
            self.bounded.append({"what": name, "why": "engine error %s: %s" % (type(ex).__name__, str(ex)[:300])})
            if self.verbose:
                print("".join(traceback.format_exc().splitlines(True)[-5:]))
        signal.alarm(0)
        if self.verbose:
            print("   %s: %.1fs" % (name, time.time() - t0), flush=True)


def main():
    pid, tier, out = sys.argv[1:4]
    ctx = Ctx(pid, tier)
    ctx.out = out
    mod = importlib.import_module("contracts." + pid.lower())
    mod.build(ctx)
    ctx.collect()
    ctx.dump()
    if ctx.verbose:
        res = ctx.result()
        print(json.dumps({k: res[k] for k in ("bounded", "backends", "solver_s", "z3_queries", "vacuity")}))


if __name__ == "__main__":
    main()
