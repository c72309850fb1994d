#!/usr/bin/env python3
"""Records which obligations the verifier discharges on the reference tree, and how quickly: vc/baseline.json."""
import glob, json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(HERE, "vc", "baseline.json")
base = json.load(open(path)) if os.path.exists(path) else {}
props = sys.argv[1:] or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(HERE, "vc", "contracts", "c[0-9][0-9].py")))
for p in props:
    f = tempfile.mktemp(suffix=".json")
    subprocess.run(["python3-vt", "-m", "vc.check", p, "--out", f], cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    obs = json.load(open(f))["obligations"]
    os.unlink(f)
    d = {}
    for o in obs:
        if o["status"] == "proved":
            d[o["name"]] = max(d.get(o["name"], 0), round(o["seconds"], 1))
    base[p] = d
    print(p, len(obs), "obligations", {o["status"] for o in obs})
    json.dump(base, open(path, "w"), indent=0, sort_keys=True)
