#!/usr/bin/env python3
"""check.py PID — decides one property on /repo's current tree.

1. contract proofs: the engine in pv/ re-reads the real functions from /repo, generates the obligations of
   contracts/<pid>.py and discharges them with z3 (all inputs, no bound);
2. runtime contracts: rt/<pid>.py evaluates the same contracts on the real code (replays counterexamples, and is the
   labelled bounded stand-in for whatever the engine cannot reach).

exit 0: everything held; exit 1 + VIOLATION line: broken.  Evidence: evidence/<pid>.json.
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY_RT = "/opt/venv/bin/python"
PY_VT = "python3-vt"


def known_listed(pid):
    out = {}
    for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        if line.startswith("known: property=%s " % pid):
            rest = line.split(" ", 2)[2].strip()
            ident, text = rest.split(" ", 1)
            out[ident.split("=", 1)[1]] = text
    return out


def start(cmd, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.update(env or {})
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=HERE, start_new_session=True)


def finish(p, timeout):
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out
    return p.returncode, out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    rt_out, pv_out = os.path.join(tmp, "rt.json"), os.path.join(tmp, "pv.json")
    budget = 60 if tier == "quick" else 900
    rt = start([PY_RT, "-W", "ignore", "rt/run.py", pid, str(seed), tier, rt_out, str(budget)])
    pv = None
    if os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py")):
        pv = start([PY_VT, "-W", "ignore", "-m", "pv.run", pid, tier, pv_out])
    violations, notes = [], []
    # ------------------------------------------------------------------ runtime contracts
    rc, out = finish(rt, budget + 240)
    try:
        R = json.load(open(rt_out))
    except Exception:  # the runner itself died
        R = {"evaluations": 0, "distinct": 0, "kinds": {}, "samples": [], "known": [], "rule": "", "wall_s": 0,
             "failures": [{"case": None, "message": "runtime contracts could not be evaluated (rc=%s): %s" % (rc, (out or "")[-1500:])}]}
    for k, f in enumerate(R["failures"][:1]):
        path = os.path.join(HERE, "replay", "%s_rt.json" % pid)
        json.dump({"property": pid, "case": f["case"], "message": f["message"],
                   "replay_cmd": "%s -W ignore %s/rt/run.py --replay %s" % (PY_RT, HERE, path)}, open(path, "w"), indent=1, default=str)
        violations.append(("VIOLATION property=%s replay=%s" % (pid, path), f["message"]))
    listed = known_listed(pid)
    for k in R["known"]:
        if not k["fails"]:
            continue
        if k["id"] in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[k["id"]]))
        else:
            path = os.path.join(HERE, "replay", "%s_%s.json" % (pid, k["id"]))
            json.dump({"property": pid, "finding": k}, open(path, "w"), indent=1, default=str)
            violations.append(("VIOLATION property=%s replay=%s" % (pid, path), k["message"]))
    # ------------------------------------------------------------------ contract proofs
    P = {"obligations": [], "functions": [], "assumptions": [], "bounded": [], "solver_s": 0}
    if pv is not None:
        rc, out = finish(pv, 480 if tier == "quick" else 1800)
        try:
            P = json.load(open(pv_out))
            if rc is None:
                P["bounded"].append({"what": "the remaining contracts of %s" % pid, "why": "time limit of the proof run"})
        except Exception:
            P["bounded"].append({"what": "all contracts of %s" % pid, "why": "the proof run did not finish (rc=%s): %s" % (rc, (out or "")[-1500:])})
    obl = P["obligations"]
    failed = [o for o in obl if o["status"] != "proved"]
    unexpected = [b for b in P["bounded"] if not b.get("expected")]
    if (failed or unexpected) and not violations:
        # the obligation is the verdict; look harder for a concrete failing input of the real code to replay
        for extra in range(1, 4 if failed else 2):
            out2 = os.path.join(tmp, "rt%d.json" % extra)
            finish(start([PY_RT, "-W", "ignore", "rt/run.py", pid, str(seed + 1000 * extra), "quick" if extra == 1 else "thorough", out2, "60"]), 90)
            try:
                R2 = json.load(open(out2))
            except Exception:
                continue
            R["evaluations"] += R2["evaluations"]
            R["distinct"] += R2["distinct"]
            if R2["failures"]:
                f = R2["failures"][0]
                path = os.path.join(HERE, "replay", "%s_rt.json" % pid)
                json.dump({"property": pid, "case": f["case"], "message": f["message"], "failed_obligations": failed[:20],
                           "replay_cmd": "%s -W ignore %s/rt/run.py --replay %s" % (PY_RT, HERE, path)}, open(path, "w"), indent=1, default=str)
                violations.append(("VIOLATION property=%s replay=%s" % (pid, path), f["message"]))
                break
    if failed:
        path = os.path.join(HERE, "replay", "%s_obligation.json" % pid)
        json.dump({"property": pid, "failed_obligations": failed[:50],
                   "replay_cmd": "cd %s && PV_VERBOSE=1 %s -m pv.run %s %s /dev/null" % (HERE, PY_VT, pid, tier)}, open(path, "w"), indent=1, default=str)
        if not violations:
            violations.append(("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path),
                               "obligation %s: %s" % (failed[0]["name"], failed[0].get("detail", "")[:600])))
        else:
            notes.append("failed obligations: " + ", ".join(o["name"] for o in failed[:5]))
    proved = [o for o in obl if o["status"] == "proved"]
    bounded = P["bounded"]
    # ------------------------------------------------------------------ evidence
    level = "proof" if proved else "exploration"
    cov = {"evaluations": R["evaluations"], "distinct_nontrivial": R["distinct"], "rule": R["rule"], "samples": R["samples"][:3],
           "kinds": R["kinds"], "runtime_contracts_wall_s": round(R["wall_s"], 2)}
    if obl:
        cov.update({
            "obligations": len(obl), "discharged": len(proved),
            "checker_cmd": "cd %s && %s -m pv.run %s %s OUT.json" % (HERE, PY_VT, pid, tier),
            "trusted_base": ["z3 (python3-vt z3-solver)", "the engine in pv/ (Python symbolic executor, sum normaliser)",
                             "CPython semantics of the supported subset"] + P.get("trusted", []),
            "functions_under_contract": P["functions"], "backends": P.get("backends", {}), "solver_s": P.get("solver_s", 0),
            "obligation_names": [{"name": o["name"], "status": o["status"], "backend": o.get("backend", ""), "s": o.get("s", 0)} for o in obl],
            "vacuity_checks": P.get("vacuity", {}),
        })
    cov["bounded_not_proved"] = bounded
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": P["assumptions"] or ["floating point is treated as real arithmetic up to a relative tolerance"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    subprocess.run(["rm", "-rf", tmp])
    print("%s: %d/%d obligations discharged (%d failed), %d runtime evaluations (%d distinct), %.1f s"
          % (pid, len(proved), len(obl), len(failed), R["evaluations"], R["distinct"], time.time() - t0))
    for b in bounded:
        print("  bounded: %s (%s)" % (b["what"], str(b["why"])[:160].replace("\n", " ")))
    for n in notes:
        print("  " + n)
    for line, msg in violations:
        print("  " + str(msg)[:1500])
        print(line)
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
