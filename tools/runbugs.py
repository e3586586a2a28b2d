#!/usr/bin/env python3
"""runbugs.py [ID...] [--props C01,C02|all] [--seed N]: run the checks against the planted bugs of
/verif/seeded, each in a scratch copy of /repo (development aid; nothing in MANIFEST uses it)."""
import json, os, shutil, subprocess, sys, tempfile, time
args = sys.argv[1:]
props = None
seed = "1"
if "--props" in args:
    i = args.index("--props"); props = args[i + 1]; del args[i:i + 2]
if "--seed" in args:
    i = args.index("--seed"); seed = args[i + 1]; del args[i:i + 2]
ids = args or sorted(os.listdir("/verif/seeded"))
allp = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
missed = 0
for b in ids:
    d = f"/verif/seeded/{b}"
    if not os.path.isdir(d):
        d = f"/tmp/devseed/{b}"
    meta = json.load(open(d + "/meta.json"))
    ps = [meta["property"]] if props is None else (allp if props == "all" else props.split(","))
    tmp = tempfile.mkdtemp(prefix="runbugs-")
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/repo", check=True)
        for p in ps:
            t = time.time()
            r = subprocess.run(["/verif/check.sh", p], env=dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_SEED=seed), capture_output=True, text=True)
            hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            if not hit and p == meta["property"]:
                missed += 1
            lines = [l for l in r.stdout.split("\n") if l]
            print(f"{b:26s} {p} {'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode:12s} {time.time()-t:5.0f}s  {lines[1][:110] if hit and len(lines) > 1 else r.stderr[-300:].strip()}", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
print("missed by its own property's check:", missed)
