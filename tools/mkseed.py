#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< json {old,new,needs,breaks,demo}: write one planted change"""
import sys, json, os, subprocess
def mk(sid, prop, edits, needs, breaks, demo, libs="", defs=""):
    d = "/verif/seeded/" + sid; os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed"; subprocess.run(["rm", "-rf", "/tmp/mkseed"]); subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in edits:
        p = w + "/" + f; s = open(p).read(); assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the property holds on the tree in $PWD (run from the repository root after the build)
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d)
g++ -std=c++17 -g -w %s -I"$R" -I"$R/_build/deps/include" "$D/demo.cpp" -o "$T/demo" "$R/_build/libron_static.a" %s || { rm -r "$T"; exit 3; }
(cd "$T" && timeout 100 ./demo); rc=$?
rm -r "$T"; exit $rc
''' % (defs, libs or "-lbotan-2"))
    os.chmod(d + "/demo.sh", 0o755)
    subprocess.run(["rm", "-rf", "/tmp/mkseed"])
