"""Compile a contract TU together with the unmodified /repo sources it includes into analysable LLVM IR."""
import os, subprocess, re, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VC_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
CLANG = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"

class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def compile_ir(src, outdir, defs=(), stubs=True):
    base = os.path.join(outdir, os.path.basename(src).replace(".cpp", ""))
    cmd = [CLANG, "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-frtti", "-fno-access-control", "-g", "-S", "-emit-llvm", "-w",
        "-fno-threadsafe-statics", "-fno-discard-value-names", "-isystem", os.path.join(ROOT, "stl"), "-I", os.path.join(ROOT, "contracts"), "-I", REPO]
    if stubs: cmd += ["-isystem", os.path.join(ROOT, "stubs")]
    for d in defs: cmd.append("-D" + d)
    cmd += [src, "-o", base + ".0.ll"]
    sh(cmd)
    sh([LLVM + "opt", "-S", "-passes=function(sroa,early-cse,simplifycfg<no-speculate-blocks>)", base + ".0.ll", "-o", base + ".ll"])
    return base + ".ll"

def demangle(names):
    r = subprocess.run([LLVM + "llvm-cxxfilt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split("\n")))
