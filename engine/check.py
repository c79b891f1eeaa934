#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property by discharging every proof obligation generated from /repo's current source."""
import sys, os, json, time, tempfile, shutil, re, multiprocessing as mp, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)
import build, prove, native, ir
import z3
sys.path.insert(0, os.path.join(ROOT, "contracts"))
from props import PROPS

JOBS = int(os.environ.get("VC_JOBS", "8"))

def resolve_contracts(m, cmap):
    """qualified function name (without parameters) -> contract function; checked to resolve"""
    if not cmap: return {}
    names = [n for n in m.funcs]
    dm = build.demangle([n[1:] for n in names])
    idx = {}
    for n in names:
        d = dm[n[1:]]
        idx.setdefault(d, []).append(n[1:])
    out = {}
    for pat, c in cmap.items():
        hit = False
        rx = re.compile(pat)
        for d, syms in idx.items():
            if rx.fullmatch(d):
                for s in syms: out[s] = c; hit = True
        if not hit: raise build.BuildError("contract target %s not found in the current source" % pat)
    return out

class Wedge(Exception): pass

def worker(q, m, entry, contracts, opts):
    try:
        sys.setrecursionlimit(30000)
        r = prove.run_entry(m, entry, contracts, opts)
    except BaseException as e:
        r = {"entry": entry, "status": "error", "error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-2000:], "failures": [], "unknowns": []}
    q.put(r)

def run_all(jobs, budget):
    """jobs: (tu, module, entry, contracts, opts).  Runs each in its own forked process, JOBS at a time."""
    res = []; pend = list(jobs); run = []
    t0 = time.time()
    while pend or run:
        while pend and len(run) < JOBS:
            tu, m, e, c, o = pend.pop(0)
            q = mp.SimpleQueue()
            p = mp.Process(target=worker, args=(q, m, e, c, o)); p.start()
            run.append((p, q, tu, e, o, time.time()))
        time.sleep(0.02)
        for x in list(run):
            p, q, tu, e, o, ts = x
            r = None
            if not q.empty(): r = q.get(); p.join(5)
            elif not p.is_alive():
                if not q.empty(): r = q.get()
                else: r = {"entry": e, "status": "error", "error": "worker died (exit %s)" % p.exitcode, "failures": [], "unknowns": []}
            elif time.time() - ts > o.get("timeout", 300) + 60 or time.time() - t0 > budget:
                p.kill(); r = {"entry": e, "status": "error", "error": "time limit", "failures": [], "unknowns": []}
            if r is not None:
                if p.is_alive(): p.kill()
                r["tu"] = tu; r.setdefault("wall_s", round(time.time() - ts, 2))
                res.append(r); run.remove(x)
                if os.environ.get("VC_VERBOSE"): print("  %-50s %-8s %6.1fs obl %s %s" % (r["entry"], r["status"], r["wall_s"], r.get("stats", {}).get("obligations"), r.get("error") or ""), file=sys.stderr)
        if time.time() - t0 > budget and pend:
            for tu, m, e, c, o in pend: res.append({"tu": tu, "entry": e, "status": "error", "error": "time limit", "failures": [], "unknowns": []})
            pend = []
    return res

def repo_functions(m, syms):
    """which of the executed functions come from /repo"""
    dm = build.demangle([s[1:] for s in syms])
    r = []
    for s in syms:
        f = m.funcs.get(s)
        if f is None or f.sub is None: continue
        d = m.md.get(f.sub, "")
        mm = re.search(r"file: !(\d+)", d)
        if not mm: continue
        fd = m.md.get(int(mm.group(1)), "")
        fn = re.search(r'filename: "([^"]*)"', fd); dr = re.search(r'directory: "([^"]*)"', fd)
        p = os.path.normpath(os.path.join(dr.group(1) if dr else "", fn.group(1))) if fn else ""
        if p.startswith(build.REPO + "/"):
            r.append((dm[s[1:]], p[len(build.REPO) + 1:]))
        elif fn and os.path.exists(os.path.join(build.REPO, fn.group(1))): r.append((dm[s[1:]], fn.group(1)))
    return r

def known_findings():
    p = os.path.join(ROOT, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vc_" + pid + "_")
    rdir = os.path.join(ROOT, "replays"); os.makedirs(rdir, exist_ok=True)
    rc = 2
    try:
        rc = run(pid, tier, only, seed, P, t0, tmp, rdir)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def run(pid, tier, only, seed, P, t0, tmp, rdir):
    jobs = []; mods = {}; builderr = None; contracted = set(); problems = []
    for T in P["tus"]:
        src = os.path.join(ROOT, "contracts", T["src"])
        try:
            ll = build.compile_ir(src, tmp, T.get("defs", ()))
            m = prove.load(ll)
            con = resolve_contracts(m, T.get("contracts"))
        except build.BuildError as e:
            problems.append({"tu": T["src"], "entry": "build of " + T["src"], "what": "the contracts no longer build against the current source", "detail": str(e)[-3000:]}); continue
        mods[T["src"]] = m
        contracted |= set(con)
        for n in sorted(m.funcs):
            if not n.startswith("@prove_") or m.funcs[n].is_decl: continue
            e = n[1:]
            if not re.match(r"prove_(%s)_" % pid, e): continue
            if e.endswith("_thorough") and tier != "thorough": continue
            if only and not re.search(only, e): continue
            o = {"timeout": 400 if tier == "quick" else 1500}
            o.update(T.get("opts", {})); o.update(T.get("entry_opts", {}).get(e, {}))
            n = o.get("shards", 1)
            con_e = con if not o.get("no_contracts") else {}
            if o.get("also"):
                try: con_e = dict(con_e, **resolve_contracts(m, o["also"]))
                except build.BuildError as er: problems.append({"tu": T["src"], "entry": e, "what": "a contract's function is gone", "detail": str(er)[-3000:]})
                contracted |= set(con_e)
            for k in range(n): jobs.append((T["src"], m, e, con_e, dict(o, shard=(k, n)) if n > 1 else o))
    jobs.sort(key=lambda j: -j[4].get("weight", 1))
    budget = 780 if tier == "quick" else 5400
    res = run_all(jobs, budget)
    viol = []; known = known_findings(); kf = []
    nat = {}
    for r in sorted(res, key=lambda r: r["entry"]):
        if r["status"] == "ok": continue
        for f in r["failures"]:
            problems.append({"tu": r["tu"], "entry": r["entry"], "what": "obligation refuted: " + f["name"], "name": f["name"], "loc": f["loc"], "inputs": f["inputs"]})
        if not r["failures"]:
            d = r.get("error") or ("obligation not settled: " + "; ".join("%s at %s" % (u["name"], u["loc"]) for u in r["unknowns"][:3]) if r["unknowns"] else "vacuous: cover goals not reached: %s" % r.get("missing_covers"))
            problems.append({"tu": r["tu"], "entry": r["entry"], "what": "proof not completed: " + d, "detail": r.get("trace", "")})
    nv = 0
    done = set()
    for p in problems:
        hit = [k for k in known if k.get("status") == "known" and k["property"] == pid and k["entry"] == p["entry"] and k["obligation"] == p.get("name")]
        if hit:
            kf.append(hit[0]["what"]); continue
        key = (p["entry"], p.get("name"))
        if key in done: continue
        done.add(key)
        nv += 1
        rp = os.path.join(rdir, "%s-%d.txt" % (pid, nv))
        lines = ["# property %s, proof entry %s (%s)" % (pid, p["entry"], p["tu"]), "# %s" % p["what"], "# at %s" % p.get("loc", "?")]
        ok = False; out = ""; ins = p.get("inputs") or []
        if not p["entry"].startswith("build of"):
            if p["tu"] not in nat: nat[p["tu"]] = native.compile_native(os.path.join(ROOT, "contracts", p["tu"]), tmp)
            exe, err = nat[p["tu"]]
            if exe is None: out = "native harness did not compile: " + err
            else:
                if p.get("name"): ok, out = native.replay(exe, p["entry"], ins, os.path.join(tmp, "in.txt"))
                if not ok:
                    found = native.search(exe, p["entry"], seed, 15 if nv <= 3 else 4)
                    if found:
                        ok2, out2 = native.replay(exe, p["entry"], found, os.path.join(tmp, "in.txt"))
                        if ok2: ok, out, ins = True, out2, found
        lines += ["%s=%s" % (n, v) for n, v in ins if v is not None]
        lines += ["# " + l for l in (("native run on the real code: " + ("FAILS" if ok else "no failure reproduced") + "\n" + out).split("\n"))]
        if p.get("detail"): lines += ["# " + l for l in p["detail"].split("\n")]
        with open(rp, "w") as f: f.write("\n".join(lines) + "\n")
        viol.append((rp, ok, p))
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for rp, ok, p in viol:
        print("  %s: %s (%s)" % (p["entry"], p["what"], p.get("loc", "")))
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if ok else " no-failing-input-found"))
    # ---------------------------------------------------------------- evidence
    obl = sum(r.get("stats", {}).get("obligations", 0) for r in res); dis = sum(r.get("stats", {}).get("discharged", 0) for r in res)
    named = sum(len(r.get("obligations", ())) for r in res)
    fns = set(); under = set()
    for r in res:
        m = mods.get(r["tu"])
        if m: fns |= set(repo_functions(m, r.get("functions", ())))
    posts = sorted({o["name"] for r in res for o in r.get("obligations", ()) if not o["name"].startswith(("bounds", "no signed", "lib:", "loop in", "shift", "assert("))})
    from build import CLANG
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "proof"), "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "assumptions": P.get("assumptions", []) + COMMON,
        "coverage": {
            "obligations": obl, "discharged": dis, "named_obligations": named, "proof_entries": len(res), "entries_completed": sum(r["status"] == "ok" for r in res),
            "checker_cmd": "python3-vt engine/check.py %s %s" % (pid, tier),
            "back_end": "z3 %s (SMT, bit-vectors + arrays), obligations generated from LLVM IR of /repo's current source by engine/sym.py" % z3.get_version_string(),
            "solver_s": round(sum(r.get("stats", {}).get("solver_s", 0) for r in res), 2), "queries": sum(r.get("stats", {}).get("queries", 0) for r in res),
            "cover_goals_reached": sum(len(r.get("covers", ())) for r in res),
            "functions_verified": sorted("%s [%s]" % x for x in fns),
            "functions_by_contract": sorted(build.demangle(sorted(contracted)).values()) if contracted else [],
            "postconditions": posts[:200],
            "bounded": P.get("bounded", []),
            "trusted_base": P.get("trusted", []) + ["clang 18 front end and the sroa/early-cse/simplifycfg passes", "engine/*.py (VC generator)", "z3", "stl/* (assumed contracts of the C++ library)"],
            "entries": [{"entry": r["entry"], "status": r["status"], "wall_s": r.get("wall_s"), "obligations": r.get("stats", {}).get("obligations", 0), "invariants": r.get("invariants", 0)} for r in res]}}
    if known: ev["known_findings"] = kf
    if not only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d entries, %d/%d obligations discharged, %d violations, %.1fs" % (pid, tier, len(res), dis, obl, len(viol), time.time() - t0))
    if viol: return 1
    if not res or dis == 0:
        print("no obligations were generated"); return 2
    return 0

COMMON = ["the C++ standard library behaves as the models in /verif/stl (unbounded allocation never fails, container growth never invalidates)",
  "x86-64 little-endian data layout; the build configuration of /opt/vp/build.sh (Debug, asserts enabled)",
  "floating-point operations and strtod/printf %G are uninterpreted; sprintf is modelled by its C contract"]

if __name__ == "__main__": main()
