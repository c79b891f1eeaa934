"""Run proof entries of one compiled contract TU."""
import sys, os, time, json, traceback, re
import z3
import ir
from vals import *
from sym import Exec, Failure, StopRun, PathEnd
import intrin
import houdini

def load(path):
    m = ir.parse_module(path)
    return m

def ctor_state(ex):
    """execute the global constructors concretely"""
    m = ex.m
    st = ex.new_state()
    g = m.globals.get("@llvm.global_ctors")
    if g is None: return st
    t, init, _ = g
    fns = []
    if init is not None and init.k == "agg":
        for e in init.v:
            fns.append((e.v[0].v, e.v[1].v))
    mode = ex.mode; ex.mode = "verify"; ex.in_ctor = True
    mc = ex.o["max_unroll"]; ex.o["max_unroll"] = 100000
    for _, fname in sorted(fns, key=lambda x: x[0]):
        st.frames = []
        ex.enter(st, m.funcs[fname], [], None, "top")
        ex.ended = []
        ex.run(st)
        if len(ex.ended) != 1: raise Unsupported("global constructors did not run to a single state: %s" % [f.name for f in ex.failures])
        st = ex.ended[0][0]
    ex.ended = []
    ex.in_ctor = False
    ex.mode = mode; ex.o["max_unroll"] = mc
    st.pc = (); st.model = None; st.nd = ()
    return st

def model_inputs(f):
    r = []
    if f.model is None: return r
    for name, t in f.nd:
        if isinstance(t, tuple) and t[0] == "buf":
            n = t[2]
            if not isinstance(n, int): n = f.model.eval(n, model_completion=True).as_long()
            if n > 65536: r.append((name, None)); continue
            bs = bytes(f.model.eval(z3.Select(t[1], z3.BitVecVal(i, 64)), model_completion=True).as_long() for i in range(n))
            r.append((name, "x" + bs.hex()))
        elif isinstance(t, z3.BoolRef):
            r.append((name, "1" if z3.is_true(f.model.eval(t, model_completion=True)) else "0"))
        else:
            r.append((name, str(f.model.eval(t, model_completion=True).as_long())))
    return r

def covers_in(m, names):
    """vc_cover tags appearing in the given functions"""
    r = set()
    for n in names:
        fn = m.funcs.get(n)
        if fn is None or fn.is_decl: continue
        for B in fn.blocks.values():
            for I in B.ins:
                if I.op == "call" and not isinstance(I.a[0], str) and I.a[0].k == "glob" and I.a[0].v == "@vc_cover":
                    c = I.a[1][0][1]
                    if not isinstance(c, str) and c.k == "glob":
                        t, init, _ = m.globals[c.v]
                        if init is not None and init.k == "str": r.add(bytes(init.v).split(b"\0")[0].decode())
    return r

def match_fns(m, pats):
    if not pats: return set()
    import build
    dm = build.demangle([n[1:] for n in m.funcs])
    rx = [re.compile(p) for p in pats]
    return {n for n in m.funcs if any(r.search(dm[n[1:]]) for r in rx) and not m.funcs[n].is_decl}

def run_proof(m, ex, st, fn, contracts, o, res):
    """verify one entry; loops that cannot be unrolled completely are cut and given inferred invariants"""
    cutfns = match_fns(m, o.get("cut"))
    deadline = ex.o["deadline"]
    base = st
    pid = fn.name.split("_")[1]
    while True:
        st = base.copy(); st.mem = dict(base.mem)
        ex.enter(st, fn, [], None, "top")
        if not cutfns:
            try:
                ex.run(st); return ex
            except houdini.NeedCut as e:
                cutfns = {e.fn}
                if ex.failures: return ex
        else:
            try:
                mg = houdini.Manager(ex, o); mg.t0 = time.time()
                for n, F in m.funcs.items():
                    if F.is_decl: continue
                    if n.startswith("@inv_%s_" % pid) and (o.get("preds") is None or re.search(o["preds"], n)): (mg.preds if not F.params else mg.ptr_preds).append(n[1:])
                    mo = re.match(r"@invobj(\d+)_%s_" % pid, n)
                    if mo: mg.obj_preds.append((n[1:], int(mo.group(1))))
                ex.manager = mg; ex.cutfns = cutfns
                ex.failures = []; ex.unknowns = []
                mg.explore(st)
                mg.infer()
                st = base.copy(); st.mem = dict(base.mem)
                ex.enter(st, fn, [], None, "top")
                ex.stats["obligations"] = ex.stats["discharged"] = 0; ex.obl = {}; ex.failures = []; ex.unknowns = []
                mg.verify(st)
                res["invariants"] = ex.stats["invariants"]; res["cuts"] = ex.stats["cuts"]
                return ex
            except houdini.NeedCut as e:
                if e.fn in cutfns: raise Unsupported("cut loop still unrolled: " + e.fn)
                cutfns = cutfns | {e.fn}
        # restart from scratch with a larger cut set
        o2 = dict(ex.o); stats = ex.stats
        n = Exec(m, o2); n.contracts = contracts; n.progress = ex.progress; n.o["deadline"] = None
        base = ctor_state(n); n.o["deadline"] = deadline
        n.obl = {}; n.failures = []; n.unknowns = []; n.fn_seen = set()
        n.stats = stats; n.sb.stats = stats; stats["obligations"] = stats["discharged"] = 0
        ex = n

def run_entry(m, entry, contracts, opts):
    t0 = time.time()
    res = {"entry": entry, "status": "ok", "failures": [], "unknowns": [], "error": None}
    ex = None
    try:
        o = dict(opts or {})
        ex = Exec(m, o)
        ex.contracts = contracts; ex.progress = match_fns(m, o.get('progress'))
        st = ctor_state(ex)
        ex.obl = {}; ex.stats.update(obligations=0, discharged=0); ex.failures = []; ex.unknowns = []; ex.fn_seen = set()
        if o.get("timeout"): ex.o["deadline"] = time.time() + o["timeout"]
        fn = m.funcs["@" + entry]
        ex = run_proof(m, ex, st, fn, contracts, o, res)
        want = covers_in(m, ["@" + entry])
        missing = want - ex.covers
        res["covers"] = sorted(ex.covers); res["missing_covers"] = sorted(missing)
        res["ended"] = len(ex.ended)
    except (Unsupported, KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception, AssertionError, RecursionError) as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-3000:]
    if ex is not None:
        for f in ex.failures: res["failures"].append({"name": f.name, "loc": f.loc, "kind": f.kind, "inputs": model_inputs(f)})
        for f in ex.unknowns: res["unknowns"].append({"name": f.name, "loc": f.loc, "kind": f.kind})
        res["obligations"] = [{"name": k[0], "loc": k[1], "count": v[0], "failed": v[1]} for k, v in sorted(ex.obl.items())]
        res["stats"] = ex.stats
        res["functions"] = sorted(ex.fn_seen)
        res["used_contracts"] = sorted(ex.used_contracts)
    if res["failures"]: res["status"] = "failed"
    elif res["error"]: res["status"] = "error"
    elif res["unknowns"]: res["status"] = "unknown"
    elif res.get("missing_covers") or not res.get("ended"): res["status"] = "vacuous"
    res["wall_s"] = round(time.time() - t0, 2)
    return res

def main():
    path, pat = sys.argv[1], sys.argv[2]
    m = load(path)
    for n in sorted(m.funcs):
        if n.startswith("@prove_") and re.search(pat, n) and not m.funcs[n].is_decl:
            r = run_entry(m, n[1:], {}, {"timeout": 200})
            ob = r.pop("obligations", [])
            r["n_obl"] = len(ob)
            print(json.dumps(r, indent=1))
if __name__ == "__main__": main()
