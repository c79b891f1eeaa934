"""second opinions on queries the in-process z3 leaves open: the same query as SMT-LIB text to z3 and cvc5 processes, first answer wins"""
import os, subprocess, tempfile, time, shutil
import z3
SOLVERS = [["z3-new", "-smt2"], ["cvc5", "--lang=smt2"], ["z3-new", "-smt2", "smt.random_seed=7", "sat.random_seed=7"]]
def race(assertions, stats, timeout_s):
    """unsat, sat or unknown (no model)"""
    t0 = time.time()
    s = z3.Solver()
    for a in assertions: s.add(a)
    text = "(set-logic ALL)\n" + s.to_smt2()
    d = tempfile.mkdtemp(prefix="vcrace"); f = os.path.join(d, "q.smt2")
    open(f, "w").write(text)
    ps = []
    for c in SOLVERS:
        if shutil.which(c[0]) is None: continue
        o = open(os.path.join(d, str(len(ps))), "w+")
        ps.append((c[0], subprocess.Popen(c + [f], stdout=o, stderr=subprocess.DEVNULL), o))
    r = z3.unknown; left = list(ps)
    while left and time.time() - t0 < timeout_s and r == z3.unknown:
        for p in list(left):
            if p[1].poll() is None: continue
            left.remove(p); p[2].seek(0); a = p[2].read().split()
            if a and a[0] in ("sat", "unsat"):
                r = z3.sat if a[0] == "sat" else z3.unsat
                k = "by_" + p[0]; stats[k] = stats.get(k, 0) + 1
                break
        else: time.sleep(0.02)
    for _, p, o in ps:
        if p.poll() is None: p.kill()
        p.wait(); o.close()
    shutil.rmtree(d, ignore_errors=True)
    stats["queries"] += 1; stats["solver_s"] += time.time() - t0
    return r
