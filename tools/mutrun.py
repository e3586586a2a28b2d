#!/usr/bin/env python3
"""mutrun.py MUTANTS.jsonl OUT.jsonl WORKERS FRAC [PHASE2]: mutation testing of the checks (development aid).
Each mutant is applied to a scratch copy of /repo, built, run through the stable tests and then through
the properties that fit the file until one kills it."""
import json, os, shutil, subprocess, sys, multiprocessing as mp, re
muts, outp, W, FRAC = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
P2 = len(sys.argv) > 5
SEQ = {
 "memdb/list.go": "C06,C13,C12,C11,C10,C09,C25,C04,C01,C03",
 "memdb/list_struct.go": "C06,C13,C12,C25,C01,C03",
 "memdb/strings.go": "C05,C21,C12,C11,C10,C25,C04,C01,C03,C09",
 "memdb/hash.go": "C07,C13,C12,C11,C10,C22,C21,C25,C04,C01,C03",
 "memdb/hash_struct.go": "C07,C21,C22,C12,C25,C01,C03",
 "memdb/set.go": "C08,C13,C12,C11,C10,C22,C25,C04,C01,C03",
 "memdb/set_struct.go": "C08,C22,C25,C01,C03",
 "memdb/keys.go": "C09,C10,C11,C12,C14,C04,C25,C03",
 "memdb/concurrentMap.go": "C09,C23,C15,C03",
 "memdb/memdb.go": "C10,C09,C11,C23,C03",
 "memdb/locks.go": "C09,C23,C03",
 "memdb/command.go": "C04",
 "resp/parser.go": "C02,C03,C01,C20",
 "resp/data.go": "C04,C01,C02",
 "server/handler.go": "C15,C02,C04,C20,C03",
 "server/server.go": "C20,C03",
 "util/util.go": "C14,C23,C09",
 "config/config.go": "C24",
 "main.go": "C24",
}
base = "/tmp/mutw"
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod -buildvcs=false")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
subprocess.run("cd /tmp/mutv/harness && go build -o /tmp/vrun-mut ./cmd/vrun", shell=True, env=env, check=True)

def sh(cmd, cwd, timeout, e=env):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def work(m):
    n = mp.current_process()._identity[0]
    root = f"{base}/{n}/repo"
    if not os.path.exists(root):
        shutil.copytree("/repo", root, symlinks=True)
    f = os.path.join(root, m["file"])
    orig = open(os.path.join("/repo", m["file"]), "rb").read()
    try:
        open(f, "wb").write(orig[:m["start"]] + m["new"].encode() + orig[m["end"]:])
        if not P2:
            props = SEQ.get(m["file"], "C04")
        else:
            props = SEQ.get(m["file"], "C04")
            if m["file"].startswith("memdb"):
                props = "C16,C17,C19," + props
            props += ",C18"
        e = dict(env, VERIF_REPO=root, VERIF_ROOT="/tmp/mutv", GOMAXPROCS="2")
        rc, out = sh(f"/tmp/vrun-mut --kill {props} {FRAC}", root, 3000, e)
        if rc == 2:
            rc2, _ = sh("go build ./...", root, 120)
            if rc2:
                return dict(m, res="nobuild")
        if rc == 0 and not P2:
            _, out2 = sh("go test -json -vet=off -count=1 -timeout 60s ./memdb ./resp ./util | grep '\"Action\":\"pass\"'", root, 150)
            ok = set()
            for l in out2.split("\n"):
                try:
                    d = json.loads(l)
                except Exception:
                    continue
                if d.get("Test"):
                    ok.add(d["Package"] + "/" + d["Test"])
            if not STABLE <= ok:
                return dict(m, res="tests")
        return dict(m, res=out.strip()[:200], rc=rc)
    finally:
        open(f, "wb").write(orig)

if __name__ == "__main__":
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)["id"] for l in open(outp)}
    L = [json.loads(l) for l in open(muts)]
    L = [m for m in L if m["id"] not in done and m["file"] in SEQ]
    if P2:
        L = [m for m in L if m.get("res", "").startswith("SURV")]
    shutil.rmtree(base, ignore_errors=True)
    with mp.Pool(W) as p, open(outp, "a") as o:
        for r in p.imap_unordered(work, L):
            o.write(json.dumps(r) + "\n"); o.flush()
    shutil.rmtree(base, ignore_errors=True)
