#!/usr/bin/env python3
"""Driver of one property check:  python3 check.py C01   (VERIF_TIER, VERIF_SEED from the environment)

1. verifier: generates the proof obligations of the property's contracts from /repo's current
   source and discharges them (vc/, z3 + cvc5);
2. monitor: the same contracts evaluated at run time on the real code with seeded inputs
   (oracle/); supplies failing inputs and bounded stand-ins where the verifier has no answer.

exit 0: held; exit 1 + VIOLATION line: broken.
"""
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
VT = "python3-vt"
CPUS = max(2, min(8, os.cpu_count() or 2))

TRUSTED = [
    "engine /verif/vc: translation of the Python source of /repo to obligations (cross-checked against CPython by the monitor)",
    "z3 and cvc5",
    "floating-point arithmetic treated as exact real arithmetic",
]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    thorough = tier == "thorough"
    mon_budget = 420 if thorough else 40
    eng_limit = 780 if thorough else 480
    shards = 4
    tmp = tempfile.mkdtemp(prefix="verif_")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    mons = monitors(prop, [seed * 1000 + k for k in range(shards)], mon_budget, tmp, env, "")
    eng, eout = None, os.path.join(tmp, "engine.json")
    if os.path.exists(os.path.join(HERE, "vc", "check.py")):
        ecmd = [VT, "-m", "vc.check", prop, "--out", eout, "--tier", tier]
        eng = subprocess.Popen(ecmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=HERE, env=env, start_new_session=True)
    viol, mon = collect(prop, mons, {"cases": 0, "nontrivial": 0, "skipped": 0, "samples": [], "errors": []}, mon_budget, seed)
    er = None
    if eng is not None:
        try:
            o, _ = eng.communicate(timeout=max(5, eng_limit - (time.time() - t0)))
            er = json.load(open(eout))
        except subprocess.TimeoutExpired:
            os.killpg(eng.pid, signal.SIGKILL)
            eng.communicate()
            er = {"obligations": [], "fallback": ["verifier exceeded its time limit"], "functions": []}
        except Exception as e:
            er = {"obligations": [], "fallback": ["verifier gave no result: %s: %s" % (e, o.decode(errors="replace")[-800:])], "functions": []}
    if viol is None and er and (bad(er) or slow(prop, er)):
        # an obligation failed and no failing input is known yet: search longer
        mons = monitors(prop, [seed * 1000 + 500 + k for k in range(min(CPUS, 7))], 110, tmp, env, "x")
        viol, mon = collect(prop, mons, mon, 110, seed)
    finish(prop, tier, seed, t0, mon, viol, er)


def monitors(prop, seeds, budget, tmp, env, tag):
    out = []
    for k, s in enumerate(seeds):
        f = os.path.join(tmp, "m%s%d.json" % (tag, k))
        cmd = [PY, os.path.join(HERE, "oracle", "run.py"), prop, "--seed", str(s), "--budget", str(budget), "--min", "20", "--out", f]
        out.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=tmp), f, cmd))
    return out


def collect(prop, mons, mon, budget, seed):
    viol = None
    for p, out, cmd in mons:
        try:
            _, err = p.communicate(timeout=budget + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            mon["errors"].append("monitor shard exceeded its time limit")
            continue
        try:
            r = json.load(open(out))
        except Exception:
            mon["errors"].append("monitor shard gave no result: " + err.decode(errors="replace")[-500:])
            continue
        for k in ("cases", "nontrivial", "skipped"):
            mon[k] += r[k]
        mon["samples"] += r["samples"][:1]
        if r["violation"] and viol is None:
            viol = dict(r["violation"])
            c = viol.get("case")
            viol["replay_cmd"] = " ".join([PY, os.path.join(HERE, "oracle", "run.py"), prop, "--seed", str(viol.get("seed", seed)),
                                           "--replay", str(c)]) if c is not None else "import of gym_anm"
    return viol, mon


def bad(er):
    return [o for o in er["obligations"] if o["status"] == "refuted"]


def slow(prop, er):
    """Obligations the verifier discharges quickly on the reference tree (vc/baseline.json) and could not
    discharge now although it used its whole budget on them."""
    try:
        base = json.load(open(os.path.join(HERE, "vc", "baseline.json"))).get(prop, {})
    except OSError:
        return []
    return [o for o in er["obligations"] if o["status"] == "unknown" and o.get("reason") == "not discharged within the limit"
            and o["name"] in base and base[o["name"]] < 12 and o.get("seconds", 0) >= max(35, 4 * base[o["name"]])]


def finish(prop, tier, seed, t0, mon, viol, er):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    obs = er["obligations"] if er else []
    discharged = [o for o in obs if o["status"] == "proved"]
    failed = [o for o in obs if o["status"] == "refuted"] + (slow(prop, er) if er else [])
    unknown = [o for o in obs if o["status"] != "proved" and o not in failed]
    cov = {
        "obligations": len(obs),
        "discharged": len(discharged),
        "checker_cmd": "python3-vt -m vc.check %s" % prop,
        "trusted_base": TRUSTED + (er.get("trusted", []) if er else []),
        "functions_under_contract": er.get("functions", []) if er else [],
        "backends": er.get("backends", {}) if er else {},
        "solver_s": round(er.get("solver_s", 0.0), 2) if er else 0.0,
        "undischarged": [{k: o.get(k) for k in ("name", "status", "reason")} for o in failed + unknown][:40],
        "verifier_fallback": (er.get("fallback", []) if er else [])[:20],
        "vacuity": er.get("vacuity", {}) if er else {},
        "bounded_standins": er.get("bounded", []) if er else [],
        "obligation_names": [o["name"] for o in obs][:150],
        "evaluations": mon["cases"],
        "distinct_nontrivial": mon["nontrivial"],
        "rule": "run-time evaluation of the contracts on seeded random networks and inputs (bounded, not counted as proved)",
        "samples": mon["samples"][:4],
        "monitor_errors": mon["errors"],
    }
    level = "proof" if obs else "exploration"
    known = known_findings(prop)
    rc, line = 0, None
    if viol is not None and not any(k in viol["what"] for k, _ in known):
        rc = 1
        path = replay(prop, {"kind": "failing input on the real code", **viol, "failed_obligations": failed[:5]})
        line = "VIOLATION property=%s replay=%s" % (prop, path)
    elif failed:
        rc = 1
        path = replay(prop, {"kind": "failed obligation", "obligations": failed[:20]})
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": (er.get("assumptions", []) if er else []),
          "wall_s": round(time.time() - t0, 2), "violations": int(rc)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, txt in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    print("%s: %d/%d obligations discharged, %d run-time evaluations, %.0f s" % (prop, len(discharged), len(obs), mon["cases"], time.time() - t0))
    for o in unknown[:10]:
        print("  undischarged (%s): %s" % (o["status"], o["name"]))
    for x in cov["verifier_fallback"][:5]:
        print("  bounded stand-in used: %s" % str(x)[:300])
    if line:
        print(str(viol["what"] if viol else failed[0]["name"])[:1500])
        print(line)
    sys.exit(rc)


def replay(prop, data):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def known_findings(prop):
    out = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("finding: property=%s " % prop):
            key, _, txt = l.split(" ", 2)[2].strip().partition(" :: ")
            out.append((key, txt))
    return out


main()
