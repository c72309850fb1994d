"""Run-time contract monitor: runs seeded cases of one property against the real code in /repo.

usage: run.py PROP --seed S --budget SECONDS [--min N] [--out FILE]
       run.py PROP --replay CASESEED
Prints one JSON object.
"""
import argparse
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--min", type=int, default=1)
    ap.add_argument("--max", type=int, default=10**9)
    ap.add_argument("--replay", type=int)
    ap.add_argument("--out")
    a = ap.parse_args()
    res = {"property": a.prop, "cases": 0, "nontrivial": 0, "skipped": 0, "violation": None, "samples": []}
    t0 = time.time()
    global OUT
    OUT, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        import rt
        import props
    except Exception:
        tb = traceback.format_exc()
        res["violation"] = {"case": None, "what": "importing gym_anm fails", "traceback": tb[-3000:]}
        return finish(a, res, t0)
    fn = getattr(props, a.prop)
    import gen
    i, seen = 0, set()
    while True:
        case = a.replay if a.replay is not None else i
        r = gen.rng_of(a.seed, int(a.prop[1:]), case)
        try:
            key = fn(r, case)
            res["cases"] += 1
            if key is not None:
                seen.add(str(key))
                if len(res["samples"]) < 3:
                    res["samples"].append({"case": case, "seed": a.seed, "summary": str(key)[:300]})
        except rt.Skip:
            res["skipped"] += 1
        except rt.cp.error.SolverError:
            res["skipped"] += 1
        except rt.Violation as e:
            res["cases"] += 1
            res["violation"] = {"case": case, "seed": a.seed, "what": str(e)[:3000]}
        except Exception as e:
            res["cases"] += 1
            tb = traceback.format_exc()
            res["violation"] = {"case": case, "seed": a.seed, "what": "unexpected %s: %s" % (type(e).__name__, e),
                                "traceback": tb[-3000:]}
        i += 1
        if res["violation"] or a.replay is not None or i >= a.max:
            break
        if time.time() - t0 > a.budget and i >= a.min:
            break
    res["nontrivial"] = len(seen)
    finish(a, res, t0)


def finish(a, res, t0):
    res["wall_s"] = round(time.time() - t0, 2)
    s = json.dumps(res)
    if a.out:
        with open(a.out, "w") as f:
            f.write(s)
    print(s, file=OUT)


main()
