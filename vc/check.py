"""python3-vt -m vc.check PROP --out FILE [--tier quick|thorough]

Each part of the contract module runs in its own process with a fresh engine."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import tempfile
import time
import traceback
import warnings

warnings.simplefilter("ignore", SyntaxWarning)
sys.setrecursionlimit(20000)


class Log(list):
    """The obligations of a part, written down one by one: a part that is stopped keeps its verdicts."""

    def __init__(self, path):
        self.f = open(path, "w")

    def append(self, o):
        list.append(self, o)
        self.f.write(json.dumps(o, default=str) + "\n")
        self.f.flush()


def run_part(prop, k, tier, deadline, repo, verbose, q, path):
    from .values import Unsupported
    from .ctx import stats
    from .spec import V
    v = V(prop, tier, deadline=deadline, repo=repo)
    v.verbose = verbose
    v.obligations = Log(path)
    p = importlib.import_module("vc.contracts." + prop.lower()).PARTS[k]
    try:
        p(v)
    except Exception as e:
        name = "%s (%s)" % (v.group, p.__name__)
        where = traceback.extract_tb(e.__traceback__)[-1]
        unsup = isinstance(e, Unsupported)
        print("UNDECIDED %s: %s %s" % (name, "unsupported" if unsup else type(e).__name__, e))
        if verbose or not unsup:
            traceback.print_exc()
        v.obligations.append({"name": name, "status": "unknown", "kind": "unsupported",
                              "reason": "%s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(where.filename), where.lineno)})
    g = v.group
    for (nm, pc, cond) in v.eng.side_obs:
        v.group = g + ": side condition"
        try:
            v.prove(nm, pc, cond, kind="side")
        except Exception as e:
            v.obligations.append({"name": nm, "status": "unknown", "kind": "side", "reason": str(e)})
    sys.stdout.flush()
    v.obligations = list(v.obligations)
    q.put((k, v.result(), stats()))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--part", default=None)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    limit = 420 if a.tier == "quick" else 720
    deadline = t0 + limit
    repo = os.environ.get("VERIF_REPO", "/repo")
    fallback = []
    try:
        parts = importlib.import_module("vc.contracts." + a.prop.lower()).PARTS
    except ModuleNotFoundError:
        parts = []
        fallback.append("no deductive contract for this property: decided by the bounded run-time monitor only")
    q = mp.Queue()
    tmpd = tempfile.TemporaryDirectory(prefix="vc_")
    tmp = tmpd.name
    todo = [k for k in range(len(parts)) if a.part in (None, parts[k].__name__)]
    order = list(todo)
    live, results = {}, {}

    def lost(k, why):
        try:
            done = [json.loads(l) for l in open(os.path.join(tmp, str(k)))]
        except Exception:
            done = []
        results[k] = ({"obligations": done + [{"name": parts[k].__name__, "status": "unknown", "kind": "unsupported", "reason": why}],
                       "functions": [], "vacuity": [], "bounded": [], "trusted": [], "assumptions": []}, {"z3_s": 0, "cvc5_s": 0})
        print("UNDECIDED part %s: %s" % (parts[k].__name__, why))
    while todo or live:
        while todo and len(live) < a.jobs:
            k = todo.pop(0)
            p = mp.Process(target=run_part, args=(a.prop, k, a.tier, deadline, repo, a.v, q, os.path.join(tmp, str(k))))
            p.start()
            live[k] = p
        try:
            k, r, s = q.get(timeout=1.0)
            results[k] = (r, s)
            live.pop(k).join(5)
            continue
        except Exception:
            pass
        for k, p in list(live.items()):
            if not p.is_alive():
                try:
                    while True:
                        k2, r, s = q.get(timeout=1.0)
                        results[k2] = (r, s)
                        live.pop(k2, None)
                except Exception:
                    pass
                if k in live:
                    live.pop(k)
                    if k not in results:
                        lost(k, "the part ended without a result")
            elif time.time() > deadline + 30:
                p.kill()
                live.pop(k)
                lost(k, "time limit")
    r = {k: [] for k in ("obligations", "functions", "vacuity", "bounded", "trusted", "assumptions")}
    secs = 0.0
    for k in order:
        x, s = results[k]
        secs += s["z3_s"] + s["cvc5_s"]
        for n in r:
            r[n] += [y for y in x[n] if n in ("obligations", "vacuity") or y not in r[n]]
    r["functions"].sort()
    backs, st = {}, {}
    for o in r["obligations"]:
        st[o["status"]] = st.get(o["status"], 0) + 1
        if o["status"] == "proved":
            backs[o["backend"]] = backs.get(o["backend"], 0) + 1
    r.update(backends=backs, solver_s=round(secs, 2), fallback=fallback, wall_s=round(time.time() - t0, 2))
    print("%s: %s in %.1f s (%s)" % (a.prop, st, time.time() - t0, backs))
    if a.out:
        with open(a.out, "w") as f:
            json.dump(r, f, indent=1)
    return 0


if __name__ == "__main__":
    sys.exit(main())
