#!/usr/bin/env python3
"""mute2e.py MUTANTS.jsonl OUT.jsonl: mutants of the files only the server process exercises, run through C24, C26, C27 (development aid)."""
import json, os, shutil, subprocess, sys
muts, outp = sys.argv[1:3]
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod -buildvcs=false")
P = {"config/config.go": ["C24"], "main.go": ["C24", "C26"], "server/server.go": ["C26", "C20", "C24"], "logger/logger.go": ["C27", "C26"]}
root = "/tmp/mute2e"
shutil.rmtree(root, ignore_errors=True)
shutil.copytree("/repo", root, symlinks=True)
for l in open(muts):
    m = json.loads(l)
    if m["file"] not in P: continue
    f = os.path.join(root, m["file"])
    orig = open("/repo/" + m["file"], "rb").read()
    open(f, "wb").write(orig[:m["start"]] + m["new"].encode() + orig[m["end"]:])
    r = subprocess.run("go build ./...", shell=True, cwd=root, env=env, capture_output=True)
    res = "SURVIVED"
    if r.returncode: res = "nobuild"
    else:
        for p in P[m["file"]]:
            try:
                q = subprocess.run(["/verif/check.sh", p], cwd="/verif", env=dict(env, VERIF_REPO=root, VERIF_COUNT="1500", VERIF_E2E="160"), capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                res = "timeout " + p; break
            if q.returncode == 1: res = "KILLED " + p; break
            if q.returncode: res = f"rc{q.returncode} {p} " + (q.stdout + q.stderr)[-200:]
    open(f, "wb").write(orig)
    with open(outp, "a") as o: o.write(json.dumps(dict(m, res=res)) + "\n")
shutil.rmtree(root)
