"""Native replay of proof entries on the real code."""
import os, subprocess, sys
from build import ROOT, REPO
def compile_native(src, outdir, defs=()):
    out = os.path.join(outdir, os.path.basename(src).replace(".cpp", ".native"))
    cmd = ["g++", "-std=c++17", "-O1", "-g", "-w", "-DVC_NATIVE", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=undefined", "-fpermissive", "-fno-access-control",
        "-rdynamic", "-I", os.path.join(ROOT, "contracts"), "-I", REPO, "-isystem", os.path.join(ROOT, "stubs")] + ["-D" + d for d in defs] + [
        src, os.path.join(ROOT, "contracts", "vc_native.cpp"), "-o", out, "-ldl"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (out, None) if r.returncode == 0 else (None, r.stdout[-3000:])
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
def replay(exe, entry, inputs, path):
    with open(path, "w") as f:
        for n, v in inputs:
            if v is not None: f.write("%s=%s\n" % (n, v))
    try: r = subprocess.run([exe, entry, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, timeout=60, errors="replace")
    except subprocess.TimeoutExpired: return False, "timeout"
    bad = r.returncode not in (0, 77, 3, 2)
    return bad, r.stdout[-4000:]
def search(exe, entry, seed, secs):
    try: r = subprocess.run([exe, entry, "search", str(seed), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, timeout=secs + 60, errors="replace")
    except subprocess.TimeoutExpired: return None
    if "FOUND\n" not in r.stdout: return None
    ins = []
    for l in r.stdout.split("FOUND\n", 1)[1].split("\n"):
        if l.startswith("#"): continue
        if "=" in l: ins.append(tuple(l.split("=", 1)))
    return ins
