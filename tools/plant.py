#!/usr/bin/env python3
"""plant.py LIST.py [ID...]: for every planted bug of LIST.py, in a scratch copy of
/repo: apply its edits, make sure it builds, passes the stable tests, touches lines
of the original repository and that its demonstration tells the two trees apart;
then write /verif/seeded/ID.

LIST.py defines BUGS: dicts with id, prop, edits [(file, func or "", old, new)],
needs, what and demo (python code using redis_demo, or Go starting with 'package')."""
import json, os, re, shutil, subprocess, sys, tempfile

BASE = "0578c7f"
env = dict(os.environ, PATH="/usr/local/go/bin:" + os.environ["PATH"])


def sh(cmd, cwd=None, timeout=300):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def func_span(src, name):
    m = re.search(r"(?m)^func (\([^)]*\) )?%s\(" % re.escape(name), src)
    if not m:
        raise SystemExit("no func " + name)
    e = src.find("\n}\n", m.start())
    return m.start(), e + 3


def apply(root, edits):
    for f, fn, old, new in edits:
        p = os.path.join(root, f)
        src = open(p).read()
        a, b = func_span(src, fn) if fn else (0, len(src))
        part = src[a:b]
        if part.count(old) != 1:
            raise SystemExit(f"{f} {fn}: {part.count(old)} matches of {old!r}")
        open(p, "w").write(src[:a] + part.replace(old, new) + src[b:])


def originals(root, patch):
    """how many removed lines come from the base commit"""
    n = 0
    cur = None
    for l in patch.split("\n"):
        if l.startswith("--- a/"):
            cur = l[6:]
        elif l.startswith("@@"):
            o = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            rc, out = sh(f"git blame -s -L{o},{o} HEAD -- {cur}", "/repo")
            if out.startswith("^" + BASE[:7]):
                n += 1
            o += 1
        elif l.startswith(" "):
            o += 1
    return n


def stable(root):
    want = json.load(open("/opt/vp/BASELINE.json"))
    rc, out = sh("go test ./... 2>&1", root)
    # the stable tests: run verbosely and require every baseline test to pass
    rc, out = sh("go test -count=1 -v ./... 2>&1", root)
    passed = set(re.findall(r"--- PASS: (\S+)", out))
    failed = set(re.findall(r"--- FAIL: (\S+)", out))
    text = json.dumps(want)
    return [t for t in failed if re.search(r"\b%s\b" % re.escape(t), text)], len(passed)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="plant-")
        try:
            root = tmp + "/repo"
            shutil.copytree("/repo", root, symlinks=True)
            apply(root, b["edits"])
            sh("gofmt -w " + " ".join({e[0] for e in b["edits"]}), root)
            rc, out = sh("go build ./... && go vet ./... 2>&1 | grep -i 'declared and not used' ; go build ./...", root)
            if rc:
                print(b["id"], "DOES NOT BUILD", out)
                continue
            patch = subprocess.run(["git", "-C", root, "diff"], capture_output=True, text=True).stdout
            n = originals(root, patch)
            # bugs that cannot count (no original line changed, or no demonstration) still serve as a
            # development aid, outside /verif
            sd = "/verif/seeded" if n and b.get("demo") else "/tmp/devseed"
            env["SEEDDIR"] = sd
            bad, k = stable(root)
            if bad:
                print(b["id"], "TESTS FAIL", bad)
                continue
            d = f"{sd}/{b['id']}"
            if not b.get("demo"):
                os.makedirs(d, exist_ok=True)
                open(d + "/patch.diff", "w").write(patch)
                json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
                print(b["id"], b["prop"], "DEV (no demonstration)")
                continue
            isgo = b["demo"].lstrip().startswith(("package", "// use -race"))
            dp = tmp + ("/demo_test.go" if isgo else "/demo.py")
            body = b["demo"].lstrip() if isgo else "from redis_demo import *\n" + b["demo"].strip() + "\n"
            open(dp, "w").write(body)
            shutil.rmtree(d, ignore_errors=True)
            rc, out = sh(f"python3 /verif/tools/mkseed.py {b['id']} {b['prop']} {root} {dp} x y")
            if rc:
                print(out)
                continue
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
            good, o1 = sh(f"bash {d}/demo.sh", "/repo")
            broken, o2 = sh(f"bash {d}/demo.sh", root)
            ok = good == 0 and broken != 0
            print(b["id"], b["prop"], ("OK" if n else "DEV") if ok else "DEMO WRONG", f"orig={n} tests={k} demo clean={good} bug={broken}")
            if not ok:
                print(o1[-1500:], "\n-----\n", o2[-1500:])
                shutil.rmtree(d)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
