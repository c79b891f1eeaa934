#!/usr/bin/env python3
"""dev: run every proof entry of a contract natively on random inputs (expects no failure)"""
import sys, os, re, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/engine")
import native
src = sys.argv[1]; secs = int(sys.argv[2]) if len(sys.argv) > 2 else 5
d = tempfile.mkdtemp()
exe, err = native.compile_native(R + "/contracts/" + src, d)
if exe is None: print(err[-3000:]); sys.exit(1)
for e in re.findall(r"PROVE\((\w+), *(\w+)\)", open(R + "/contracts/" + src).read()):
    e = "prove_%s_%s" % e
    f = native.search(exe, e, 1, secs)
    print(e, "FOUND" if f else "nothing")
    if f: print(f, native.replay(exe, e, f, d + "/in")[1][-1500:])
