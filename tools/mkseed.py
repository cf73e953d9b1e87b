#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a spec (id, property, edits [(file, old, new)], needs, breaks, demo).
The patch is made in a scratch clone of /repo, which is removed again."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = os.path.join(V, "seeded", spec["id"])
os.makedirs(d, exist_ok=True)
wt = tempfile.mkdtemp(prefix="mkseed")
try:
    subprocess.run(["git", "clone", "-q", "-s", "/repo", wt + "/r"], check=True)
    for f, old, new in spec["edits"]:
        p = wt + "/r/src/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", wt + "/r", "diff"], capture_output=True, text=True, check=True).stdout
finally:
    shutil.rmtree(wt)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.cpp", "w").write(spec["demo"])
open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: the property holds; anything else: it does not. Run with cwd = the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -pthread -I"$PWD/src/rpp" %s "$here/demo.cpp" -o "$tmp/demo" %s || exit 3
run=""; setarch -R true 2>/dev/null && run="setarch -R"   # the sanitizers dislike some address-space layouts
$run timeout 120 "$tmp/demo"
""" % (spec.get("cxxflags", ""), spec.get("libs", "")))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
print("wrote", d)
