"""Runtime-contract runner: /opt/venv/bin/python run.py PID SEED TIER OUT.json [BUDGET_S] | --replay FILE"""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/repo")
sys.dont_write_bytecode = True
import common  # noqa

CASE_S = 90


def run_case(mod, case):
    """None if the contract holds, else a message."""
    def late(*_):
        raise common.Violation("did not return within %d s" % CASE_S)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(CASE_S)
    try:
        mod.run(case)
        return None
    except common.Violation as ex:
        return "contract violated: %s" % ex
    except Exception as ex:  # unexpected exception on a valid input
        tb = traceback.extract_tb(ex.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno} in {f.name}" for f in tb][-4:]
        return "unexpected %s: %s [%s]" % (type(ex).__name__, ex, " <- ".join(reversed(where)))
    finally:
        signal.alarm(0)


def known_findings(mod):
    out = []
    for ident, text, case in getattr(mod, "KNOWN", []):
        msg = run_case(mod, case)
        out.append({"id": ident, "text": text, "fails": msg is not None, "message": msg})
    return out


def main():
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        mod = importlib.import_module(rec["property"].lower())
        msg = run_case(mod, rec["case"])
        print("REPLAY", rec["property"], "FAILS: " + msg if msg else "holds")
        sys.exit(1 if msg else 0)
    pid, seed, tier, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    budget = float(sys.argv[5]) if len(sys.argv) > 5 else 60.0
    mod = importlib.import_module(pid.lower())
    rng = random.Random(seed * 7919 + 13)
    t0 = time.time()
    n, distinct, samples, fails, kinds = 0, set(), [], [], {}
    for case in mod.gen(rng, tier):
        n += 1
        key = json.dumps(case, sort_keys=True, default=str)
        if key not in distinct:
            distinct.add(key)
            kinds[case.get("k", "")] = kinds.get(case.get("k", ""), 0) + 1
            if len(samples) < 3 or (n % 97 == 0 and len(samples) < 6):
                samples.append(case)
        msg = run_case(mod, case)
        if msg:
            # keep the smallest failing case per kind
            fails.append({"case": case, "message": msg, "size": len(key)})
            if len(fails) >= 5:
                break
        if time.time() - t0 > budget:
            break
    fails.sort(key=lambda f: f["size"])
    json.dump({"property": pid, "evaluations": n, "distinct": len(distinct), "kinds": kinds,
               "samples": samples, "failures": fails, "known": known_findings(mod),
               "rule": getattr(mod, "RULE", ""), "wall_s": time.time() - t0}, open(out, "w"), default=str)


if __name__ == "__main__":
    main()
