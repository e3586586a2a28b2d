#!/usr/bin/env python3
"""mkseed.py ID: turn the current diff of a scratch copy into /verif/seeded/ID.
Usage: mkseed.py ID PROPERTY COPY DEMO.py 'needs' 'what it breaks'"""
import json, os, shutil, subprocess, sys
sid, prop, copy, demo, needs, what = sys.argv[1:7]
d = os.environ.get("SEEDDIR", "/verif/seeded") + "/" + sid
os.makedirs(d, exist_ok=True)
patch = subprocess.run(["git", "-C", copy, "diff"], check=True, capture_output=True, text=True).stdout
assert patch.strip(), "empty patch"
open(f"{d}/patch.diff", "w").write(patch)
if demo.endswith(".py"):
    shutil.copy(demo, f"{d}/demo.py")
    shutil.copy("/verif/tools/demo/redis_demo.py", f"{d}/redis_demo.py")
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PATH="/usr/local/go/bin:$PATH" PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
else:
    shutil.copy(demo, f"{d}/demo_test.go")
    pkg = next(l.split()[1] for l in open(demo) if l.startswith("package "))
    race = "-race " if "// use -race" in open(demo).read() else ""
    open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# runs demo_test.go inside package {pkg} of the current directory, without adding a file to it
export PATH="/usr/local/go/bin:$PATH"
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{{"Replace": {{"%s/{pkg}/zz_demo_test.go": "%s/demo_test.go"}}}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off {race}-count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./{pkg}
''')
os.chmod(f"{d}/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
print("wrote", d)
