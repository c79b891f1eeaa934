"""Unbounded loops: cut points at loop headers, automatic discovery of what a loop changes, and
inference of inductive invariants (Houdini) from generated and contract-supplied candidates.
Every surviving invariant is established on entry and preserved by every path back to the cut, for all inputs;
the obligations of the code are then verified from an arbitrary state satisfying the invariants."""
import time, itertools, os, sys, math
import z3
from race import race
import ir
from vals import *
from vals import _keep
from sym import Exec, PathEnd, StopRun, Frame

class NeedCut(Exception):
    def __init__(self, fn): self.fn = fn

def locs_of(ex, st):
    """iterate over (location, value) of a state suspended at a cut header"""
    out = {}
    last = len(st.frames) - 1
    for i, f in enumerate(st.frames):
        if i == last: live = set(f.fn.live[f.blk]) | {p.res for p in f.fn.blocks[f.blk].phis}
        else: live = ex.live_at(f, f is not st.frames[-1])
        for n in live:
            if n in f.env: out[("e", i, n)] = f.env[n]
    return out

class Cut:
    def __init__(self, key, idx):
        self.key = key; self.idx = idx
        self.havoc = set()          # locations
        self.template = None
        self.pc = None
        self.G = None
        self.dirty = True
        self.cands = None           # list of (name, fn(state)->bool expr)
        self.lit = z3.Bool("inv!%d" % idx)
        self.syms = {}
        self.stride = {}; self.sbase = {}; self.ver = 0

def reads(exprs, ex=None):
    """array reads and ghost-function applications in the formulas: {(symbol ast id, argument position): [argument terms]}"""
    seen = set(); out = {}; stack = list(exprs)
    while stack:
        e = stack.pop()
        h = e.get_id()
        if h in seen: continue
        seen.add(h)
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_SELECT:
                if e.arg(1).size() == 64:   # a read of an updated array may be a read of the array before
                    todo = [e.arg(0)]; arrs = set()
                    while todo:
                        a = todo.pop()
                        if a.get_id() in arrs: continue
                        arrs.add(a.get_id())
                        out.setdefault(a.get_id(), {})[e.arg(1).get_id()] = e.arg(1)
                        if z3.is_store(a): todo.append(a.arg(0))
                        elif z3.is_app_of(a, z3.Z3_OP_ITE): todo += [a.arg(1), a.arg(2)]
            elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                for i in range(e.num_args()):
                    if z3.is_bv(e.arg(i)) and e.arg(i).size() == 64: out.setdefault((e.decl().name(), i), {})[e.arg(i).get_id()] = e.arg(i)
            stack += e.children()
    return out

_ment = {}
def mentions(ex, e):
    r = _ment.get(e.get_id())
    if r is None:
        r = False; seen = set(); stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.get_id() in ex.anys: r = True; break
            stack += x.children()
        _ment[e.get_id()] = r; _keep.append(e)
    return r

_pats = {}
def patterns(ex, fact):
    """{any-symbol id: [(read key, coefficient, rest term)]} of the reads in a universally quantified fact"""
    r = _pats.get(fact.get_id())
    if r is None:
        r = {}
        for key, args in reads([fact]).items():
            for t in args.values():
                c, d = lin(t)
                ks = [k for k in d if k in ex.anys]
                if len(ks) != 1: continue
                co = d[ks[0]][0]
                rest = {k: x for k, x in d.items() if k != ks[0]}
                if any(mentions(ex, x[1]) for x in rest.values()): continue
                r.setdefault(ks[0], []).append((key, co, c, rest))
        _pats[fact.get_id()] = r; _keep.append(fact)
    return r

def instantiate(ex, facts, exprs, rounds=2, limit=400):
    """instances of universally quantified facts (free 'any' symbols) at the index terms the formulas read"""
    out = []; done = set(); defs = set()
    cur = list(exprs)
    for rd in range(rounds):
        rs = reads(cur)
        new = []
        for f in facts:
            pats = patterns(ex, f)
            if not pats: continue
            choices = []
            for kid, l in pats.items():
                ts = {}
                for key, co, c, rest in l:
                    for t in rs.get(key, {}).values():
                        c2, d2 = lin(t)
                        dd = {k: x for k, x in d2.items()}
                        ok = True
                        for k, (rc, te) in rest.items():
                            n = ((dd[k][0] if k in dd else 0) - rc) & mask(64)
                            if n: dd[k] = (n, te)
                            else: dd.pop(k, None)
                        cc = (c2 - c) & mask(64)
                        q, rem = scale(lin_build(cc, dd), co) if co != 1 else (lin_build(cc, dd), 0)
                        if q is None or rem: continue
                        if is_sym(q) and rd > 0 and mentions(ex, q): continue
                        ts[q if isinstance(q, int) else ("t", q.get_id())] = q
                choices.append((kid, list(ts.values())[:40]))
            for combo in itertools.product(*[c[1] for c in choices]):
                sub = [(ex.anys[c[0]], bv(t, 64)) for c, t in zip(choices, combo)]
                key = (f.get_id(),) + tuple(t.get_id() for _, t in sub)
                if key in done: continue
                done.add(key); i = z3.simplify(z3.substitute(f, *sub))
                if not z3.is_true(i):
                    new.append(i)
                    d = ex.fact_defs.get(f.get_id())
                    if d is not None and f.get_id() not in defs: defs.add(f.get_id()); out.append(d)
                if len(done) > limit: return out + new
        if not new: break
        out += new; cur = new
    return out

class Manager:
    def __init__(self, ex, opts):
        self.ex = ex; self.o = opts
        self.cuts = {}
        self.arr = {}      # src -> list of (key, state)
        self.preds = []    # zero-argument invariant predicates supplied by the contract TU
        self.ptr_preds = []; self.obj_preds = []
        self.log = os.environ.get("VC_HLOG")

    def key_of(self, st):
        k = []
        for i, f in enumerate(st.frames):
            it = tuple(sorted((h, n) for h, n in f.iters.items() if not (self.ex.cut_header(f.fn, h)) and (f.blk in f.fn.loops[h])))
            k.append((f.fn.name, f.blk, f.ip, it))
        g = tuple(sorted((x[1], v) for x, v in st.ghost.items() if isinstance(x, tuple) and x[0] == "split"))
        return tuple(k) + g

    # ------------------------------------------------------------ generic states
    def fresh(self, c, loc, like, w=None):
        nm = "h%d!%s" % (c.idx, "_".join(str(x) for x in loc))
        if loc in c.syms: return c.syms[loc]
        if isinstance(like, z3.BoolRef): r = z3.Bool(nm)
        elif isinstance(like, Ptr):
            sd = c.stride.get(loc, 1)      # every arrival was seen to differ from the template by a multiple of sd
            r = Ptr(like.obj, add64(c.sbase[loc], z3.BitVec(nm, 64) * z3.BitVecVal(sd, 64)) if sd > 1 else z3.BitVec(nm, 64))
        else:
            if w is None: w = like.size()
            r = z3.Bool(nm) if w == 1 else z3.BitVec(nm, w)
        c.syms[loc] = r
        return r

    def fresh_obj(self, c, loc, st, like):
        """a pointer that may designate different objects: give it its own generic object"""
        if loc in c.syms:
            p, o = c.syms[loc]
        else:
            ex = self.ex
            i = ex.new_id()
            src = ex.obj(st, like.obj)
            o = Obj("generic", None, cw=src.cw or 1)
            p = Ptr(i, 0) if isinstance(like.off, int) and like.off == 0 else Ptr(i, z3.BitVec("ho%d!%d" % (c.idx, i), 64))
            o.arr = fresh_base(8 * o.cw, "gen")
            c.syms[loc] = (p, o)
        st.mem[p.obj] = o
        return p

    def compare(self, c, st):
        """extend c.havoc by the locations where st differs from the template; returns True when it grew"""
        ex = self.ex; t = c.template
        n0 = (len(c.havoc), len(c.pc), c.ver)
        # path condition: keep the facts common to all arrivals
        ids = {x.get_id() for x in st.pc}
        keep = tuple(x for x in c.pc if x.get_id() in ids)
        if len(keep) != len(c.pc): c.pc = keep
        A, B = c.locs, locs_of(ex, st)
        for loc in A:
            if loc not in B: raise Unsupported("cut arrival lacks a live value")
            if not same(A[loc], B[loc]):
                if loc not in c.havoc:
                    c.havoc.add(loc)
                self.kind_check(c, loc, A[loc], B[loc])
        for oid in list(t.mem):
            oa = t.mem[oid]; ob = ex.obj(st, oid)
            if oa is ob: continue
            if ob is None:      # made on some paths only: not part of the generic state (a use of it there is an error)
                del t.mem[oid]; c.ver += 1; c.havoc = {h for h in c.havoc if not (h[0] in ("c", "arr", "freed") and h[1] == oid)}
                continue
            if oa.freed: continue
            if ob.freed:
                c.havoc.add(("freed", oid)); continue
            if not same(oa.size, ob.size): raise Unsupported("object size changes in a loop")
            if oa.arr is not ob.arr or ("arr", oid) in c.havoc:
                if ("arr", oid) not in c.havoc: c.havoc.add(("arr", oid))
                cw = ob.cw or oa.cw
                if c.arrcw.get(oid) not in (None, cw): raise Unsupported("cell width changes in a loop")
                c.arrcw[oid] = cw
                continue
            for off in set(oa.cells) | set(ob.cells):
                ca, cb = oa.cells.get(off), ob.cells.get(off)
                if ca is not None and cb is not None and ca[0] == cb[0]:
                    if same(ca[1], cb[1]): continue
                    c.havoc.add(("c", oid, off, ca[0])); self.kind_check(c, ("c", oid, off, ca[0]), ca[1], cb[1])
                elif ca is None and cb is not None:
                    if oa.kind == "stack" or not oa.zero:
                        # uninitialised before: if never initialised on entry the value is indeterminate
                        c.havoc.add(("c", oid, off, cb[0])); c.vals.setdefault(("c", oid, off, cb[0]), []).append(cb[1])
                    else: c.havoc.add(("c", oid, off, cb[0])); c.vals.setdefault(("c", oid, off, cb[0]), []).append(cb[1])
                elif cb is None:
                    c.havoc.add(("c", oid, off, ca[0])); c.vals.setdefault(("c", oid, off, ca[0]), []).append(ca[1])
                else:
                    n = max(ca[0], cb[0])
                    c.havoc.add(("c", oid, off, n))
        # ghost maps
        for g in set(t.ghost) | set(st.ghost):
            a, b = t.ghost.get(g), st.ghost.get(g)
            if a is None and b is None: continue
            if a is None or b is None or not same(a, b):
                if isinstance(g, tuple) and g[0] == "g": c.havoc.add(("g", g[1]))
                else: raise Unsupported("ghost state %r differs at cut" % (g,))
        return (len(c.havoc), len(c.pc), c.ver) != n0

    def kind_check(self, c, loc, a, b):
        c.vals.setdefault(loc, [])
        if len(c.vals[loc]) < 6: c.vals[loc].append(b)
        if isinstance(a, Ptr):
            sd = 1
            if isinstance(b, Ptr) and b.obj == a.obj and (self.ex.obj(c.template, a.obj).cw or 1) > 1:
                k, d = lin(sub64(b.off, a.off))
                sd = math.gcd(*[min(x, (1 << 64) - x) for x in [k] + [co for co, _ in d.values()]])
            old = c.stride.get(loc, 0)
            new = math.gcd(old, sd)
            if new != old:
                c.stride[loc] = new; c.sbase[loc] = a.off
                if old: c.syms.pop(loc, None); c.ver += 1

    def build(self, c):
        ex = self.ex
        s = c.template.copy()
        s.frames = [f.copy() for f in c.template.frames]
        s.pc = c.pc + (c.lit,)
        s.model = None
        if any(l[0] == "e" for l in c.havoc): pass
        for loc in sorted(c.havoc, key=str):
            if loc[0] == "e":
                f = s.frames[loc[1]]
                old = f.env[loc[2]]
                others = c.vals.get(loc, [])
                f.env[loc[2]] = self.newval(c, loc, s, [old] + others, f.fn, loc[2])
            elif loc[0] == "c":
                _, oid, off, n = loc
                o = ex.wobj(s, oid)
                # drop overlapping cells
                old = o.cells.get(off)
                for k in list(o.cells):
                    if k < off + n and k + o.cells[k][0] > off: del o.cells[k]
                vals = ([old[1]] if old is not None and old[0] == n else []) + c.vals.get(loc, [])
                o = ex.wobj(s, oid)
                o.cells[off] = (n, self.newval(c, loc, s, vals, None, None, 8 * n))
            elif loc[0] == "arr":
                o = ex.wobj(s, loc[1])
                cw = c.arrcw.get(loc[1]) or o.cw or 1
                o.cw = cw; o.cells = {}
                if loc not in c.syms: c.syms[loc] = fresh_base(8 * cw, "H%d_%s" % (c.idx, o.name[:8]))
                o.arr = c.syms[loc]
            elif loc[0] == "freed":
                o = ex.wobj(s, loc[1]); o.freed = True; o.cells = {}; o.arr = None
            elif loc[0] == "g":
                if loc not in c.syms: c.syms[loc] = z3.Array(fresh_name("Hg_" + loc[1]), z3.BitVecSort(64), z3.BitVecSort(64))
                s.ghost[("g", loc[1])] = c.syms[loc]
        c.G = s
        return s

    def newval(self, c, loc, s, vals, fn, name, w=None):
        ptrs = [v for v in vals if isinstance(v, Ptr)]
        if ptrs:
            rest = [v for v in vals if not isinstance(v, Ptr)]
            if rest and len({p.obj for p in ptrs}) == 1 and all(v == 0 if isinstance(v, int) else loc in c.syms and same(v, c.syms[loc]) for v in rest if not (is_sym(v) and "isnull!" in str(v.decl() if v.num_args() == 0 else v.arg(0)))):
                # null or a pointer into one object
                if loc not in c.syms:
                    nm = "h%d!%s" % (c.idx, "_".join(str(x) for x in loc))
                    c.syms[loc] = z3.If(z3.Bool("isnull!" + nm), z3.BitVecVal(0, 64), bv(Ptr(ptrs[0].obj, z3.BitVec(nm, 64)), 64))
                return c.syms[loc]
            if len(ptrs) < len([v for v in vals if not is_sym(v)]) or any(is_sym(v) for v in vals):
                raise Unsupported("value at cut is sometimes a pointer and sometimes not: %s" % (loc,))
            if len({p.obj for p in ptrs}) == 1: return self.fresh(c, loc, ptrs[0])
            return self.fresh_obj(c, loc, s, ptrs[0])
        if any(isinstance(v, tuple) for v in vals):
            raise Unsupported("aggregate value at cut")
        if w is None:
            t = self.ex.valty(fn, name); w = t.w
        for v in vals:
            if isinstance(v, FnPtr): raise Unsupported("function pointer changes at cut")
        return self.fresh(c, loc, z3.BitVecVal(0, w) if w > 1 else z3.BoolVal(True), w)

    # ------------------------------------------------------------ exploration
    def take(self, src):
        a = self.ex.cut_arrivals; self.ex.cut_arrivals = []
        # merge arrivals at the same cut
        by = {}
        for key, st in a:
            by.setdefault(key, []).append(st)
        res = []
        for key, l in by.items():
            if self.o.get("merge_arrivals", True): l = self.ex.merge_group(l)
            res += [(key, s) for s in l]
        self.arr[src] = res
        return res

    def trace_cands(self):
        if not self.log: return
        for c in self.cuts.values():
            print("INV cut %d %s" % (c.idx, c.key[-1] if not isinstance(c.key[-1][0], str) else c.key[-1][:2]), file=sys.stderr)
            for cd in c.cands: print("     ", cd[0], file=sys.stderr)

    def explore(self, entry_state):
        ex = self.ex
        ex.mode = "houdini"
        ex.cut_arrivals = []
        ex.run(entry_state)
        self.arr = {}
        self.absorb(self.take(None))
        rounds = 0
        while True:
            d = [c for c in self.cuts.values() if c.dirty]
            if not d: break
            rounds += 1
            if rounds > self.o.get("max_rounds", 400): raise Unsupported("cut discovery does not converge")
            d.sort(key=lambda c: c.idx)
            c = d[0]
            c.dirty = False
            G = self.build(c)
            if self.log: print("segment", c.idx, c.key[-1][:2] if isinstance(c.key[-1][0], str) else c.key, "havoc", len(c.havoc), time.time() - self.t0, file=sys.stderr)
            ex.ended = []
            ex.run(G.copy())
            self.absorb(self.take(c.key))

    def absorb(self, arrivals):
        for key, st in arrivals:
            c = self.cuts.get(key)
            if c is None:
                c = self.cuts[key] = Cut(key, len(self.cuts))
                c.template = st; c.pc = st.pc; c.vals = {}; c.arrcw = {}
                c.locs = locs_of(self.ex, st)
                c.dirty = True
            else:
                if self.compare(c, st): c.dirty = True

    # ------------------------------------------------------------ candidates
    def state_syms(self, c, s):
        """named scalar / pointer values of a state at cut c: havocked locations and live environment"""
        ex = self.ex; r = {}
        top = len(s.frames) - 1
        for loc in c.locs:
            v = s.frames[loc[1]].env.get(loc[2])
            if v is None: continue
            if isinstance(v, (int, Ptr)) or is_sym(v): r[loc] = v
        for loc in c.havoc:
            if loc[0] == "c":
                o = ex.obj(s, loc[1]); x = o.cells.get(loc[2])
                if x is not None and x[0] == loc[3]: r[loc] = x[1]
                else: r[loc] = ex.cells_get(ex.wobj(s, loc[1]), loc[2], loc[3])
        # cells of stack objects that hold pointers or lengths (not havocked) are useful bounds
        for oid, o in c.template.mem.items():
            if o.freed or o.kind == "global": continue
            for off, (n, v) in o.cells.items():
                l = ("c", oid, off, n)
                if l in r: continue
                if isinstance(v, Ptr) or (is_sym(v) and n in (4, 8) and self.o.get("cell_bounds", True)):
                    q = ex.obj(s, oid).cells.get(off)
                    if q is not None and q[0] == n: r[l] = q[1]
        return r

    def gen_cands(self, c):
        ex = self.ex
        G = c.G
        names = {}
        base = self.state_syms(c, G)
        hv = [l for l in base if l in c.havoc]
        C = []
        def add(nm, f): C.append((nm, f))
        def get(l): return lambda vals: vals[l]
        seen_expr = set()
        ptrs = {}
        for l, v in base.items():
            if isinstance(v, Ptr): ptrs.setdefault(v.obj, []).append(l)
        lim = self.o.get("max_cands", 400)
        # pointers into the same object
        for obj, ls in ptrs.items():
            uniq = {}
            for l in ls:
                k = str(base[l].off) if is_sym(base[l].off) else base[l].off
                if l in c.havoc or k not in uniq: uniq.setdefault((k, l in c.havoc and l), l)
            ls2 = list(uniq.values())
            if ex.obj(G, obj) is None: continue
            size = ex.obj(G, obj).size
            for a in ls2:
                if a not in c.havoc: continue
                if size is not None: add("%s within object" % (a,), lambda V, a=a, size=size: z3.ULE(bv(V[a].off, 64), bv(size, 64)))
                add("%s >= 0" % (a,), lambda V, a=a: bv(V[a].off, 64) >= 0)
                for b in ls2:
                    if a == b: continue
                    if b in c.havoc and str(b) < str(a): continue
                    add("%s <= %s" % (a, b), lambda V, a=a, b=b: z3.ULE(bv(V[a].off, 64), bv(V[b].off, 64)))
                    add("%s <  %s" % (a, b), lambda V, a=a, b=b: z3.ULT(bv(V[a].off, 64), bv(V[b].off, 64)))
                    add("%s >= %s" % (a, b), lambda V, a=a, b=b: z3.UGE(bv(V[a].off, 64), bv(V[b].off, 64)))
                    add("%s >  %s" % (a, b), lambda V, a=a, b=b: z3.UGT(bv(V[a].off, 64), bv(V[b].off, 64)))
                if c.stride.get(a, 1) > 1 and a in c.sbase:
                    def small(V, a=a):
                        q = scale(sub64(V[a].off, c.sbase[a]), c.stride[a])[0]
                        if q is None: raise KeyError
                        return z3.And(bv(q, 64) <= 1 << 40, bv(q, 64) >= -(1 << 40))
                    add("%s steps within 2^40" % (a,), small)
        # scalars
        sc = [l for l in hv if not isinstance(base[l], Ptr)]
        allsc = [l for l in base if not isinstance(base[l], (Ptr, z3.BoolRef)) and (is_sym(base[l]))]
        for l in sc:
            v = base[l]
            if isinstance(v, z3.BoolRef):
                add("%s" % (l,), lambda V, l=l: boolv(V[l])); add("!%s" % (l,), lambda V, l=l: z3.Not(boolv(V[l]))); continue
            if not is_sym(v): continue
            w = v.size()
            t = c.locs.get(l)
            if l[0] == "c":
                q = c.template.mem.get(l[1]); q = q.cells.get(l[2]) if q is not None else None
                t = q[1] if q is not None and q[0] == l[3] else None
            consts = sorted({x for x in [t] + c.vals.get(l, []) if isinstance(x, int)})
            if isinstance(t, int) or is_sym(t):
                add("%s >= entry" % (l,), lambda V, l=l, t=t, w=w: z3.UGE(bv(V[l], w), bv(t, w)))
                add("%s <= entry" % (l,), lambda V, l=l, t=t, w=w: z3.ULE(bv(V[l], w), bv(t, w)))
            if consts: add("%s in %s" % (l, consts), lambda V, l=l, cs=tuple(consts), w=w: z3.Or(*[bv(V[l], w) == x for x in cs]))
            add("%s != 0" % (l,), lambda V, l=l, w=w: bv(V[l], w) != 0)
            add("%s <= smax" % (l,), lambda V, l=l, w=w: z3.ULE(bv(V[l], w), mask(w - 1)))
            for k in self.o.get("bounds", ()):
                if k < mask(w): add("%s <= %d" % (l, k), lambda V, l=l, w=w, k=k: z3.ULE(bv(V[l], w), k))
            n = 0
            for b in allsc:
                if b == l or base[b].size() != w or w < 8: continue
                if b in c.havoc and str(b) < str(l): continue
                n += 1
                if n > 12: break
                add("%s <= %s" % (l, b), lambda V, l=l, b=b, w=w: z3.ULE(bv(V[l], w), bv(V[b], w)))
                add("%s <  %s" % (l, b), lambda V, l=l, b=b, w=w: z3.ULT(bv(V[l], w), bv(V[b], w)))
                add("%s >= %s" % (l, b), lambda V, l=l, b=b, w=w: z3.UGE(bv(V[l], w), bv(V[b], w)))
                add("%s >  %s" % (l, b), lambda V, l=l, b=b, w=w: z3.UGT(bv(V[l], w), bv(V[b], w)))
        # constant differences seen: offsets advance together
        hp = [l for l in hv if isinstance(base[l], Ptr)]
        offs = lambda V, l: bv(V[l].off, 64) if isinstance(V[l], Ptr) else bv(V[l], 64)
        ent = {}
        tv = self.state_syms(c, c.template.copy())
        sixtyfour = [l for l in hv if l in tv and (isinstance(base[l], Ptr) or (is_sym(base[l]) and not isinstance(base[l], z3.BoolRef) and base[l].size() == 64))]
        for a, b in itertools.combinations(sixtyfour[:14], 2):
            try: d = offs(tv, a) - offs(tv, b)
            except Exception: continue
            add("%s - %s const" % (a, b), lambda V, a=a, b=b, d=d: offs(V, a) - offs(V, b) == d)
        C = C[:lim]
        res = []
        for nm, f in C:
            def g(s, V, f=f):
                return f(V)
            res.append((nm, g))
        # predicates supplied by the contracts
        for p in self.preds:
            def g(s, V, p=p):
                s2 = s.copy(); s2.frames = list(s2.frames)
                r = ex.eval_pure(s2, p, [])
                return boolv(r) if not isinstance(r, int) else z3.BoolVal(bool(r & 1))
            res.append(("contract " + p, g))
        typed = {"ptr": [], 64: [], 32: [], 8: []}
        for l, v in base.items():
            if isinstance(v, Ptr): typed["ptr"].append(l)
            elif is_sym(v) and not isinstance(v, z3.BoolRef) and v.size() in typed: typed[v.size()].append(l)
        for p in self.ptr_preds:
            F = ex.m.funcs["@" + p]
            doms = [typed["ptr"] if t.k == "ptr" else typed.get(t.w, []) for t, _ in F.params]
            n = 0
            for combo in itertools.product(*doms):
                if len(set(combo)) != len(combo) or not any(l in c.havoc for l in combo): continue
                po = {base[l].obj for l in combo if isinstance(base[l], Ptr)}
                if len(po) > 1: continue
                if self.o.get("pred_filter") and not self.o["pred_filter"](p, c, combo, base, ex): continue
                n += 1
                if n > self.o.get("max_combos", 150): break
                def g(s, V, p=p, combo=combo):
                    s2 = s.copy(); s2.frames = list(s2.frames)
                    r = ex.eval_pure(s2, p, [V[l] for l in combo])
                    return boolv(r) if not isinstance(r, int) else z3.BoolVal(bool(r & 1))
                res.append(("contract %s%s" % (p, combo), g))
        for p, size in self.obj_preds:
            for oid in sorted(G.mem):
                o = G.mem[oid]
                if o.freed or not isinstance(o.size, int) or o.size != size or o.kind == "global": continue
                if not any(l[0] in ("c", "arr") and l[1] == oid for l in c.havoc): continue
                def g(s, V, p=p, oid=oid):
                    s2 = s.copy(); s2.frames = list(s2.frames)
                    r = ex.eval_pure(s2, p, [Ptr(oid, 0)])
                    return boolv(r) if not isinstance(r, int) else z3.BoolVal(bool(r & 1))
                res.append(("contract %s(obj %d %s)" % (p, oid, o.name[:20]), g))
        return res

    def infer(self):
        ex = self.ex
        cuts = list(self.cuts.values())
        for c in cuts:
            V = self.state_syms(c, c.G)
            live = []
            for nm, g in self.gen_cands(c):
                try: e = g(c.G, V)
                except (PathEnd, KeyError, AttributeError, Unsupported) as er:
                    if self.log: print("candidate dropped (no value): ", nm, repr(er)[:200], file=sys.stderr)
                    continue
                e = z3.simplify(e)
                if z3.is_true(e): continue
                live.append([nm, g, e])
            c.cands = live
        # arrivals
        A = []
        for src, l in self.arr.items():
            for key, st in l: A.append((self.cuts[key], st, src))
        inst = {}
        for i, (c, st, src) in enumerate(A):
            V = self.state_syms(c, st)
            for cd in list(c.cands):
                try: e = z3.simplify(cd[1](st, V))
                except (PathEnd, KeyError, AttributeError, Unsupported) as er:
                    e = None
                inst[(i, id(cd))] = e
        for i, (c, st, src) in enumerate(A):
            c.cands = [cd for cd in c.cands if inst.get((i, id(cd))) is not None]
        rnd = 0
        work = set(range(len(A)))
        while work:
            i = min(work); work.discard(i); rnd += 1
            c, st, src = A[i]
            if time.time() > (ex.o["deadline"] or 1e18): raise Unsupported("deadline")
            dropped = self.check_arrival(c, st, [cd for cd in c.cands], inst, i)
            if dropped:
                if self.log: print("drop at cut %d: %s" % (c.idx, [d[0] for d in dropped][:8]), len(c.cands), file=sys.stderr)
                ids = {id(d) for d in dropped}
                c.cands = [cd for cd in c.cands if id(cd) not in ids]
                lid = c.lit.get_id()
                for j, (c2, st2, src2) in enumerate(A):
                    if any(x.get_id() == lid for x in st2.pc) or src2 == c.key: work.add(j)
        self.trace_cands()
        ex.stats["invariants"] = sum(len(c.cands) for c in cuts)
        ex.stats["cuts"] = len(cuts)

    def inv_axioms(self):
        r = []
        for c in self.cuts.values():
            if c.cands: r.append(z3.Implies(c.lit, z3.And(*[cd[2] for cd in c.cands])))
        return r

    def check_arrival(self, c, st, cands, inst, i):
        ex = self.ex
        dropped = []
        tmo = self.o.get("houdini_timeout", 20000)
        s = z3.Solver(); s.set("timeout", min(tmo, 8000))
        for a in ex.axioms: s.add(a)
        for a in self.inv_axioms(): s.add(a)
        for x in st.pc: s.add(x)
        todo = [cd for cd in cands if not z3.is_true(inst[(i, id(cd))])]
        single = False
        while todo:
            t = time.time()
            s.push(); s.add(z3.Or(*[z3.Not(inst[(i, id(cd))]) for cd in todo]))
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            ex.stats["queries"] += 1; ex.stats["solver_s"] += time.time() - t
            if r != z3.unsat and ex.anys:
                ins = self.instances(list(st.pc) + [z3.Or(*[z3.Not(inst[(i, id(cd))]) for cd in todo])])
                if self.log: print("cut %d: %d instances, %d to show" % (c.idx, len(ins), len(todo)), file=sys.stderr)
                if ins:
                    s.add(*ins)
                    s.push(); s.add(z3.Or(*[z3.Not(inst[(i, id(cd))]) for cd in todo]))
                    r = s.check()
                    m = s.model() if r == z3.sat else None
                    s.pop()
            if r == z3.unknown and len(todo) > 1:
                r = race(list(s.assertions()) + [z3.Or(*[z3.Not(inst[(i, id(cd))]) for cd in todo])], ex.stats, tmo / 1000)
                if r == z3.sat: r = z3.unknown   # no model: one by one
            if r == z3.unsat: break
            if r == z3.sat:
                bad = [cd for cd in todo if not z3.is_true(m.eval(inst[(i, id(cd))], model_completion=True))]
                if not bad: bad = todo[:1]
            else:
                # settle one by one
                bad = []
                for cd in todo:
                    s.push(); s.add(z3.Not(inst[(i, id(cd))]))
                    t = time.time(); r1 = s.check()
                    if r1 == z3.unknown: r1 = race(s.assertions(), ex.stats, tmo / 1000)
                    if r1 == z3.unknown and os.environ.get("VC_DUMPQ"):
                        open("/tmp/q.smt2", "w").write(s.to_smt2()); sys.exit()
                    if r1 != z3.unsat: bad.append(cd)
                    if self.log and time.time() - t > 1: print("one by one: %s %.1fs %s" % (r1, time.time() - t, cd[0]), file=sys.stderr)
                    s.pop()
                if not bad: break
            ids = {id(b) for b in bad}
            dropped += bad
            todo = [cd for cd in todo if id(cd) not in ids]
        return dropped

    def instances(self, exprs):
        pc = {x.get_id() for x in exprs}
        facts = []; seen = []
        for c in self.cuts.values():
            if c.lit.get_id() in pc and c.cands:
                for cd in c.cands:
                    if mentions(self.ex, cd[2]): facts.append(cd[2])
                    elif z3.is_expr(cd[2]): seen.append(cd[2])
        return instantiate(self.ex, facts + self.ex.foralls, list(exprs) + seen)

    # ------------------------------------------------------------ final verification
    def verify(self, entry_state):
        ex = self.ex
        ex.mode = "verify"
        for a in self.inv_axioms(): ex.axioms.append(a)
        ex.sb.reset(); ex.loc_cache = {}; ex.loc_solver = None
        ex.ended = []
        ex.cut_arrivals = []
        ends = 0
        segs = [entry_state] + [c.G.copy() for c in self.cuts.values()]
        for s in segs:
            s.model = None
            ex.run(s)
            ex.cut_arrivals = []
            if len(ex.failures) >= ex.o.get("max_failures", 3): break
        return ex.ended
