"""Engine intrinsics and the assumed contracts of libc externals."""
import z3
from vals import *
import ir
from ir import ty_size

INTRIN = {}
def intr(*names):
    def d(f):
        for n in names: INTRIN[n] = f
        return f
    return d

def cstring(ex, st, p):
    if not isinstance(p, Ptr): return "?"
    o = ex.obj(st, p.obj); r = bytearray(); k = p.off
    while True:
        c = ex.cells_get(o, k, 1)
        if not isinstance(c, int): return None
        if c == 0: return r.decode("latin1")
        r.append(c); k += 1

def nd(ex, st, name, w):
    """fresh symbolic input, unique per (name, occurrence) on the path"""
    t = z3.BitVec(fresh_name(name), w)
    st.nd = st.nd + ((name, t),)
    return t

for _n, _w in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64)):
    def _mk(w):
        def h(ex, st, f, I, a): return nd(ex, st, cstring(ex, st, a[0]), w)
        return h
    INTRIN["vc_" + _n] = _mk(_w)

@intr("vc_bool")
def _(ex, st, f, I, a):
    name = cstring(ex, st, a[0])
    t = z3.Bool(fresh_name(name)); st.nd = st.nd + ((name, t),)
    return t

@intr("vc_any")   # vc_any(name): an arbitrary fixed index; facts about it hold for every index (instantiated on demand)
def _(ex, st, f, I, a):
    name = cstring(ex, st, a[0])
    t = z3.BitVec("any!" + name, 64)
    if t.get_id() not in ex.anys: ex.anys[t.get_id()] = t
    st.nd = st.nd + ((name, t),)
    return t

@intr("vc_forall")   # vc_forall(cond): assume cond for every value of the vc_any indices it mentions
def _(ex, st, f, I, a):
    c = a[0]
    if isinstance(c, int):
        if not c: 
            from sym import PathEnd
            raise PathEnd()
        return None
    if st.pc:   # the fact belongs to this path only
        from houdini import mentions
        if any(mentions(ex, p) for p in st.pc):   # the condition's own branches: a part of the fact
            g = z3.Bool(fresh_name("fact"))
            A = [p for p in st.pc if mentions(ex, p)]; P = [p for p in st.pc if not mentions(ex, p)]
            t = z3.Implies(z3.And(g, *A), boolv(c)); ex.foralls.append(t)
            ex.fact_defs[t.get_id()] = z3.Implies(z3.And(*P), g)
        else:
            g = z3.Bool(fresh_name("fact")); st.pc = st.pc + (g,)
            ex.foralls.append(z3.Implies(g, boolv(c)))
    else: ex.foralls.append(boolv(c))
    return None

@intr("vc_buf")   # vc_buf(name, n): object with exactly n symbolic bytes
def _(ex, st, f, I, a):
    name = cstring(ex, st, a[0])
    p = ex.alloc(st, name, a[1], cw=1)
    o = ex.wobj(st, p.obj)
    o.arr = fresh_base(8, name)
    st.nd = st.nd + ((name, ("buf", o.arr.f, a[1])),)
    return p

@intr("vc_new")   # vc_new(cellwidth): unbounded heap object
def _(ex, st, f, I, a):
    return ex.alloc(st, "heap", None, cw=a[0])

@intr("vc_alloc") # vc_alloc(nbytes, cellwidth)
def _(ex, st, f, I, a):
    return ex.alloc(st, "heap", a[0], cw=a[1])

@intr("vc_havoc_obj")  # vc_havoc_obj(ptr, cellwidth): forget the contents of the whole object
def _(ex, st, f, I, a):
    o = ex.wobj(st, a[0].obj)
    cw = o.cw or a[1] or 1
    o.cw = cw; o.cells = {}; o.arr = fresh_base(8 * cw, "havoc")
    return None

@intr("vc_assume")
def _(ex, st, f, I, a):
    ex.assume(st, boolv(a[0]) if not isinstance(a[0], int) else a[0])
    if st.pc and not isinstance(a[0], int):
        # prune infeasible paths early
        from sym import leaves
        lc = leaves(st.pc[-1])
        if st.model is None and lc and all(lc.isdisjoint(leaves(c)) for c in st.pc[:-1]): return None   # independent of the path so far
        if st.model is None:
            r, m = ex.sb.check(st.pc)
            if r == z3.unsat:
                from sym import PathEnd
                raise PathEnd()
            st.model = m
    return None

@intr("vc_assert")
def _(ex, st, f, I, a):
    name = cstring(ex, st, a[1])
    ex.oblige(st, boolv(a[0]) if not isinstance(a[0], int) else a[0], name, ex.loc(I), "post")
    return None

@intr("vc_cover")
def _(ex, st, f, I, a):
    name = cstring(ex, st, a[0])
    if name not in ex.covers:
        r, m = ex.sb.check(st.pc)
        if r == z3.sat: ex.covers.add(name)
    return None

@intr("vc_checking")
def _(ex, st, f, I, a):
    # true in the contract function that is being verified (called directly from the proof entry)
    c = st.ghost.get("checking")
    n = f.fn.name[1:]
    if c == n and not any(fr.fn.name[1:] == n for fr in st.frames[:-1]): return 1
    return 0

@intr("vc_begin_check")
def _(ex, st, f, I, a):
    fp = a[0]
    st.ghost["checking"] = fp.name[1:]
    return None

@intr("vc_native")
def _(ex, st, f, I, a): return 0

@intr("vc_same_obj")
def _(ex, st, f, I, a): return 1 if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].obj == a[1].obj else 0

@intr("vc_is_concrete")
def _(ex, st, f, I, a): return 1 if isinstance(a[0], int) else 0

@intr("vc_concretize")   # enumerate the feasible values of a bounded quantity (complete; obligation if too many)
def _(ex, st, f, I, a):
    v = a[0]
    if isinstance(v, int): return v
    vals = enum_values(ex, st, v, 64, 128)
    return fork_values(ex, st, f, I, v, vals, 64)

@intr("vc_split")        # vc_split(name, v): concretize and never merge states that differ in it
def _(ex, st, f, I, a):
    from sym import FORKED, PathEnd
    name = cstring(ex, st, a[0]); v = a[1]
    sh = ex.o.get("shard")
    if sh and any(isinstance(k, tuple) and k[0] == "split" for k in st.ghost): sh = None
    if isinstance(v, int):
        if sh and v % sh[1] != sh[0]: raise PathEnd()      # another process verifies this case
        st.ghost[("split", name)] = v; st.ghost["splits"] = st.ghost.get("splits", ()) + (v,); return v
    base = st.pc + ((z3.URem(v, z3.BitVecVal(sh[1], 64)) == sh[0],) if sh else ())
    alts = []; extra = []
    while True:
        r, m = ex.sb.check(base, z3.And(*extra) if extra else None)
        if r == z3.unsat: break
        if r != z3.sat: raise Unsupported("case split not settled")
        x = m.eval(v, model_completion=True).as_long()
        extra.append(v != x)
        if len(extra) > 600: raise Unsupported("too many cases in a split")
        s = st.copy(); c = norm(z3.simplify(v == x))
        if not isinstance(c, int): s.pc = s.pc + (c,)
        s.model = m; alts.append((s, x))
    if not alts: raise PathEnd()
    ex.stats["forks"] += len(alts)
    for s, x in alts:
        g = s.frames[-1]
        s.ghost[("split", name)] = x; s.ghost["splits"] = s.ghost.get("splits", ()) + (x,)
        if I.res: g.env[I.res] = x
        g.ip += 1
        ex.push(s)
    return FORKED

def enum_values(ex, st, v, w, limit):
    vals = []
    extra = []
    while True:
        r, m = ex.sb.check(st.pc, z3.And(*extra) if extra else None)
        if r == z3.unknown: raise Unsupported("value enumeration not settled")
        if r != z3.sat: break
        x = m.eval(v, model_completion=True).as_long()
        vals.append(x); extra.append(v != x)
        if len(vals) > limit: raise Unsupported("too many values to concretize")
    return vals

def fork_values(ex, st, f, I, v, vals, w):
    from sym import FORKED, PathEnd
    if not vals: raise PathEnd()
    if len(vals) == 1: return vals[0]
    alts = ex.fork(st, [(norm(z3.simplify(v == x)), x) for x in vals])
    for s, x in alts:
        g = s.frames[-1]
        if I.res: g.env[I.res] = x
        g.ip += 1
        ex.push(s)
    return FORKED

@intr("vc_uf1", "vc_uf2", "vc_uf3", "vc_uf4")  # uninterpreted ghost function of u64 arguments
def _(ex, st, f, I, a):
    name = cstring(ex, st, a[0])
    n = len(a) - 1
    fn = z3.Function("gf_" + name, *([z3.BitVecSort(64)] * (n + 1)))
    return fn(*[bv(x, 64) for x in a[1:]])

@intr("vc_rank_lt")   # an arbitrary strict weak order, given by a rank in the reals (linear arithmetic instead of bit-vectors)
def _(ex, st, f, I, a):
    name = cstring(ex, st, a[0])
    if ex.o.get("bv_rank"):     # ranks of finitely many ops fit in a word
        fn = z3.Function("gr_" + name, z3.BitVecSort(64), z3.BitVecSort(ex.o["bv_rank"]))
        return norm(z3.simplify(z3.ULT(fn(bv(a[1], 64)), fn(bv(a[2], 64)))))
    fn = z3.Function("gr_" + name, z3.BitVecSort(64), z3.RealSort())
    return norm(z3.simplify(fn(bv(a[1], 64)) < fn(bv(a[2], 64))))

@intr("vc_quot")   # vc_quot(d, size): q with d == q * size modulo 2^64 (the index, wherever the contract bounds q)
def _(ex, st, f, I, a):
    d, n = a
    if isinstance(d, int): return (d - (1 << 64) if d >> 63 else d) // n & mask(64)
    q, r = scale(lin_norm(d), n)
    if q is None or r: return ex.binop("udiv", 64, d, n)
    return q

@intr("vc_trace")
def _(ex, st, f, I, a):
    name = cstring(ex, st, a[0])
    st.trace = st.trace + ((name, a[1] if len(a) > 1 else None),)
    return None

@intr("vc_debug")
def _(ex, st, f, I, a):
    print("DEBUG", cstring(ex, st, a[0]), [str(x)[:300] for x in a[1:]], "pc:", [str(c)[:200] for c in st.pc][-6:])
    return None

# ---------------------------------------------------------------- ghost map/sets (z3 arrays u64 -> u64)
@intr("vc_gread")   # vc_gread(name, idx)
def _(ex, st, f, I, a):
    name = cstring(ex, st, a[0])
    arr = st.ghost.get(("g", name))
    if arr is None:
        arr = z3.Array("ghost_" + name, z3.BitVecSort(64), z3.BitVecSort(64)); st.ghost[("g", name)] = arr
    return norm(z3.simplify(z3.Select(arr, bv(a[1], 64))))
@intr("vc_gwrite")
def _(ex, st, f, I, a):
    name = cstring(ex, st, a[0])
    arr = st.ghost.get(("g", name))
    if arr is None: arr = z3.Array("ghost_" + name, z3.BitVecSort(64), z3.BitVecSort(64))
    st.ghost[("g", name)] = z3.Store(arr, bv(a[1], 64), bv(a[2], 64))
    return None

# ---------------------------------------------------------------- memory functions
def do_copy(ex, st, I, d, s, n):
    loc = ex.loc(I)
    if isinstance(n, int) and n == 0: return
    if not isinstance(n, int):
        n = simp(n)
        # copying zero bytes touches nothing
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            r, _ = ex.sb.check(st.pc, n != 0)
            if r == z3.unsat: return
    if isinstance(n, int) and n <= 4096:
        d = ex.deref(st, d, n, loc, "store"); s = ex.deref(st, s, n, loc, "load")
        do, so = ex.obj(st, d.obj), ex.obj(st, s.obj)
        if isinstance(d.off, int) and isinstance(s.off, int) and so.arr is None and do.arr is None:
            parts = []
            k = 0
            while k < n:
                c = so.cells.get(s.off + k)
                if c is not None and c[0] <= n - k: parts.append((k, c[0], c[1])); k += c[0]
                else:
                    # uninitialised gap or straddling cell
                    straddle = any((q := so.cells.get(s.off + k - j)) is not None and q[0] > j for j in range(0, 9))
                    if not straddle and not so.zero:
                        j = k + 1
                        while j < n and (s.off + j) not in so.cells: j += 1
                        parts.append((k, j - k, None)); k = j
                    else:
                        if not (so.kind == "global" and so.const): so = ex.wobj(st, s.obj)
                        parts.append((k, 1, ex.cells_get(so, s.off + k, 1))); k += 1
            for k, c, v in parts:
                if v is None: continue      # copying indeterminate bytes (padding)
                ex.store(st, Ptr(d.obj, d.off + k), c, v, loc)
            return
        cw = so.arr is not None and so.cw or do.arr is not None and do.cw or do.cw or so.cw or (8 if n % 8 == 0 else 4 if n % 4 == 0 else 1)
        if n <= 512 or so.arr is None:
            if n % cw: cw = 1
            if cw > 8: cw = 8
            vals = [ex.load(st, Ptr(s.obj, addc(s.off, k)), cw, loc) for k in range(0, n, cw)]
            for j, k in enumerate(range(0, n, cw)): ex.store(st, Ptr(d.obj, addc(d.off, k)), cw, vals[j], loc)
            return
    # symbolic length
    d = ex.deref(st, d, 0, loc, "store"); s = ex.deref(st, s, 0, loc, "load")
    for p, what in ((d, "store"), (s, "load")):
        o = ex.obj(st, p.obj)
        if o.size is not None:
            e = z3.And(z3.ULE(bv(p.off, 64), bv(o.size, 64)), z3.ULE(bv(n, 64), bv(o.size, 64) - bv(p.off, 64)))
            ex.oblige(st, z3.Or(bv(n, 64) == 0, e), "bounds %s (block copy) of %s" % (what, o.name.lstrip("@")), loc, "memory")
    so = ex.obj(st, s.obj)
    if so.arr is None:
        do = ex.obj(st, d.obj)
        if not so.const: so = ex.wobj(st, s.obj)
        ex.ensure_arr(so, do.cw or so.cw or 1)
    do = ex.wobj(st, d.obj)
    ex.ensure_arr(do, so.cw)
    if do.cw != so.cw: raise Unsupported("block copy between cell widths %d %d" % (do.cw, so.cw))
    cw = do.cw
    di, r1 = scale(d.off, cw); si, r2 = scale(s.off, cw); ni, r3 = scale(n, cw)
    if di is None or si is None or ni is None or r1 or r2 or r3: raise Unsupported("misaligned block copy")
    do.arr = Cpy(do.arr, di, ni, so.arr, si)

@intr("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memcpy", "memmove", "vc_copy")
def _(ex, st, f, I, a):
    do_copy(ex, st, I, a[0], a[1], a[2]); return a[0]

@intr("llvm.memset.p0.i64", "memset")
def _(ex, st, f, I, a):
    n = a[2]
    if not isinstance(n, int):
        o = ex.wobj(st, a[0].obj); ex.ensure_arr(o, 1)
        if o.cw != 1 or not (isinstance(a[1], int)): raise Unsupported("symbolic memset")
        z = Base("zero", 8)
        if a[1] != 0:
            z = Base("fun", 8, z3.K(z3.BitVecSort(64), z3.BitVecVal(a[1] & 255, 8)))
        o.arr = Cpy(o.arr, a[0].off, n, z, 0)
        return a[0]
    v = a[1]
    p = a[0]
    loc = ex.loc(I)
    k = 0
    while k < n:
        c = 8 if n - k >= 8 and isinstance(v, int) and isinstance(p.off, int) and (p.off + k) % 8 == 0 else 4 if n - k >= 4 and isinstance(v, int) and isinstance(p.off, int) and (p.off + k) % 4 == 0 else 1
        val = int.from_bytes(bytes([v & 255]) * c, "little") if isinstance(v, int) else (norm(z3.simplify(z3.Extract(7, 0, v))) if v.size() > 8 else v)
        ex.store(st, Ptr(p.obj, addc(p.off, k)), c, val, loc)
        k += c
    return a[0]

@intr("strlen")
def _(ex, st, f, I, a):
    s = cstring(ex, st, a[0])
    if s is None:
        p = a[0]
        o = ex.obj(st, p.obj) if isinstance(p, Ptr) else None
        if o is not None and o.tag and o.tag[0] == "strz" and same(o.tag[1], p.off) and o.tag[3] is o.arr: return norm(z3.ZeroExt(32, o.tag[2]))
        raise Unsupported("strlen of symbolic data")
    return len(s)

def memcmp_term(ex, st, I, p, q, n):
    loc = ex.loc(I)
    r = z3.BitVecVal(0, 32); 
    items = []
    for k in range(n):
        x = ex.load(st, ex.ptradd(p, k), 1, loc); y = ex.load(st, ex.ptradd(q, k), 1, loc)
        items.append((x, y))
    for x, y in reversed(items):
        if same(x, y): continue
        X, Y = bv(x, 8), bv(y, 8)
        r = z3.If(X == Y, r, z3.If(z3.ULT(X, Y), z3.BitVecVal(mask(32), 32), z3.BitVecVal(1, 32)))
    return norm(z3.simplify(r))

@intr("memcmp", "vc_memcmp", "bcmp")
def _(ex, st, f, I, a):
    p, q, n = a
    if not isinstance(n, int):
        n = simp(n)
    if not isinstance(n, int):
        try:
            vals = enum_values(ex, st, n, 64, 40)
        except Unsupported:
            return memcmp_quant(ex, st, I, p, q, n)
        r = None
        for x in vals:
            t = memcmp_guarded(ex, st, I, p, q, x, n == x)
            r = t if r is None else z3.If(n == x, bv(t, 32), bv(r, 32))
        return norm(z3.simplify(r)) if is_sym(r) else r
    if n == 0: return 0
    return memcmp_term(ex, st, I, p, q, n)

def memcmp_guarded(ex, st, I, p, q, n, g):
    # bounds obligations hold only under the guard
    s2 = st.copy(); s2.pc = s2.pc + (norm(z3.simplify(g)),) if not isinstance(norm(z3.simplify(g)), int) else s2.pc
    s2.model = None
    return memcmp_term(ex, s2, I, p, q, n)

def memcmp_quant(ex, st, I, p, q, n):
    """unbounded memcmp: fresh sign with first-difference witness (exact semantics)"""
    loc = ex.loc(I)
    P_ = ex.deref(st, p, 0, loc, "load"); Q_ = ex.deref(st, q, 0, loc, "load")
    for X in (P_, Q_):
        o = ex.obj(st, X.obj)
        if o.size is not None:
            ex.oblige(st, z3.And(z3.ULE(bv(X.off, 64), bv(o.size, 64)), z3.ULE(bv(n, 64), bv(o.size, 64) - bv(X.off, 64))), "bounds load (memcmp) of " + o.name, loc, "memory")
        if o.arr is None: ex.ensure_arr(ex.wobj(st, X.obj) if not o.const else o, 1)
    op, oq = ex.obj(st, P_.obj), ex.obj(st, Q_.obj)
    r = z3.BitVec(fresh_name("memcmp"), 32); w = z3.BitVec(fresh_name("diffat"), 64)
    j = z3.BitVec(fresh_name("j"), 64)
    def at(o, X, k): return bv(read_chain(o.arr, add64(X.off, k), 8), 8)
    if P_.obj == Q_.obj and same(P_.off, Q_.off): return 0
    eqs = lambda up: z3.ForAll([j], z3.Implies(z3.ULT(j, up), at(op, P_, j) == at(oq, Q_, j)))
    ex.assume(st, z3.Or(z3.And(r == 0, w == bv(n, 64)),
        z3.And(z3.ULT(w, bv(n, 64)), r == z3.If(z3.ULT(at(op, P_, w), at(oq, Q_, w)), z3.BitVecVal(mask(32), 32), z3.BitVecVal(1, 32)), at(op, P_, w) != at(oq, Q_, w))))
    ex.assume(st, eqs(w))
    return r

@intr("__assert_fail")
def _(ex, st, f, I, a):
    txt = cstring(ex, st, a[0])
    ex.oblige(st, 0, "assert(%s) in %s" % (txt, f.fn.name[1:]), ex.loc(I), "assert")
    from sym import PathEnd
    raise PathEnd()

@intr("abort", "exit", "_ZSt9terminatev", "__cxa_pure_virtual")
def _(ex, st, f, I, a):
    ex.fail_now(st, "abnormal termination in " + f.fn.name, ex.loc(I), "assert")

@intr("_Znwm", "_Znam", "malloc")
def _(ex, st, f, I, a): return ex.alloc(st, "heap", a[0])
@intr("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free")
def _(ex, st, f, I, a): return None
@intr("__cxa_atexit", "__cxa_guard_release", "__cxa_guard_abort")
def _(ex, st, f, I, a): return 0
@intr("__cxa_guard_acquire")
def _(ex, st, f, I, a):
    # static local: initialise on first use
    v = ex.load(st, a[0], 1, "?")
    if v == 0 or not isinstance(v, int):
        ex.store(st, a[0], 1, 1, "?"); return 1
    return 0
@intr("llvm.lifetime.start.p0", "llvm.lifetime.end.p0")     # a local that left its scope has no contents
def _(ex, st, f, I, a):
    p = a[1]
    if isinstance(p, Ptr) and p.off == 0:
        o = ex.wobj(st, p.obj)
        if o.kind == "stack":
            o.cells = {}; o.arr = None; o.tag = None; o.freed = I.a[0].v.startswith("@llvm.lifetime.end")
    return None

@intr("llvm.dbg.*", "llvm.assume", "llvm.donothing", "llvm.experimental.noalias.scope.decl", "llvm.invariant.*", "llvm.stacksave*", "llvm.stackrestore*")
def _(ex, st, f, I, a): return None
@intr("llvm.expect.*")
def _(ex, st, f, I, a): return a[0]
@intr("llvm.is.constant.*")
def _(ex, st, f, I, a): return 0
@intr("llvm.trap", "llvm.ubsantrap")
def _(ex, st, f, I, a):
    ex.fail_now(st, "undefined behaviour trap in " + f.fn.name, ex.loc(I), "ub")

@intr("llvm.bswap.i64", "llvm.bswap.i32", "llvm.bswap.i16")
def _(ex, st, f, I, a):
    w = I.ty.w; v = a[0]
    if isinstance(v, int): return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
    V = bv(v, w)
    return norm(z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, V) for i in range(w // 8)])))
@intr("llvm.ctpop.*")
def _(ex, st, f, I, a):
    w = I.ty.w; v = a[0]
    if isinstance(v, int): return bin(v).count("1")
    V = bv(v, w); r = z3.BitVecVal(0, w)
    for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, V))
    return r
def _minmax(op):
    def h(ex, st, f, I, a):
        w = I.ty.w
        c = ex.icmp(op, w, a[0], a[1])
        if isinstance(c, int): return a[0] if c else a[1]
        return norm(z3.simplify(z3.If(c, bv(a[0], w), bv(a[1], w))))
    return h
INTRIN["llvm.umin.*"] = _minmax("ult"); INTRIN["llvm.umax.*"] = _minmax("ugt")
INTRIN["llvm.smin.*"] = _minmax("slt"); INTRIN["llvm.smax.*"] = _minmax("sgt")
@intr("llvm.abs.*")
def _(ex, st, f, I, a):
    w = I.ty.w
    c = ex.icmp("slt", w, a[0], 0); n = ex.binop("sub", w, 0, a[0])
    if isinstance(c, int): return n if c else a[0]
    return norm(z3.simplify(z3.If(c, bv(n, w), bv(a[0], w))))

# ---------------------------------------------------------------- ctype (C locale, ASCII): assumed contracts
def _cls(pred):
    def h(ex, st, f, I, a):
        c = a[0]
        if isinstance(c, int): return 1 if pred(c) else 0
        C = bv(c, 32); ks = [k for k in range(128) if pred(k)]
        return z3.If(ex.ranges(C, ks, 32), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    return h
INTRIN["isdigit"] = _cls(lambda c: 48 <= c <= 57)
INTRIN["isspace"] = _cls(lambda c: c in (32, 9, 10, 11, 12, 13))
INTRIN["isalpha"] = _cls(lambda c: 65 <= c <= 90 or 97 <= c <= 122)
INTRIN["isupper"] = _cls(lambda c: 65 <= c <= 90)
INTRIN["islower"] = _cls(lambda c: 97 <= c <= 122)

# ---------------------------------------------------------------- sprintf / strtod: assumed contracts
@intr("sprintf")
def _(ex, st, f, I, a):
    fmt = cstring(ex, st, a[1])
    dst = a[0]
    loc = ex.loc(I)
    if fmt == "%ld":
        return sprintf_ld(ex, st, f, I, dst, a[2])
    # other formats: an arbitrary NUL-terminated string whose length is bounded by the format
    bound = fmt_bound(fmt)
    n = z3.BitVec(fresh_name("sprintf_len"), 32)
    ex.assume(st, z3.And(z3.UGE(n, 1), z3.ULE(n, bound)))
    p = ex.deref(st, dst, 0, loc, "store")
    o = ex.obj(st, p.obj)
    if o.size is not None:
        ex.oblige(st, z3.ULE(bv(p.off, 64) + z3.ZeroExt(32, n) + 1, bv(o.size, 64)), "sprintf(\"%s\") fits its buffer" % fmt, loc, "memory")
    o = ex.wobj(st, p.obj); ex.ensure_arr(o, 1)
    src = fresh_base(8, "sprintf")
    o.arr = St(Cpy(o.arr, p.off, z3.ZeroExt(32, n), src, 0), add64(p.off, z3.ZeroExt(32, n)), 0)
    o.tag = ("strz", p.off, n, o.arr)      # a string of that length, with no NUL inside
    return n

def fmt_bound(fmt):
    import re
    n = len(re.sub(r"%[-.0-9]*l*[a-zA-Z]", "", fmt))
    for m in re.finditer(r"%([-.0-9]*)(l*)([a-zA-Z])", fmt):
        c = m.group(3)
        if c in "diu": n += 20 if m.group(2) else 11
        elif c in "gG":
            # %.NG : sign, d, '.', N-1 digits (or leading 0.000), e+ddd
            pr = m.group(1); N = int(pr.split(".")[1]) if "." in pr else 6
            n += N + 1 + 1 + 5
        elif c in "xX": n += 16
        else: raise Unsupported("sprintf format " + fmt)
    return n

def sprintf_ld(ex, st, f, I, dst, v):
    """exact contract of sprintf("%ld"): shortest decimal text.  Forks on sign and digit count."""
    from sym import FORKED, PathEnd
    loc = ex.loc(I)
    V = bv(v, 64)
    neg = V < 0
    mag = z3.If(neg, -V, V)
    alts = []
    for sgn in (0, 1):
        for d in range(1, 20):
            lo = 0 if d == 1 else 10 ** (d - 1); hi = min(10 ** d - 1, (1 << 63) if sgn else (1 << 63) - 1)
            c = z3.And(neg == bool(sgn), z3.UGE(mag, lo), z3.ULE(mag, hi))
            alts.append((norm(z3.simplify(c)), (sgn, d)))
    if isinstance(v, int):
        s = str(v - (1 << 64) if v >> 63 else v)
        write_text(ex, st, dst, s.encode() + b"\0", loc)
        return len(s)
    res = ex.fork(st, alts)
    if not res: raise PathEnd()
    for s, (sgn, d) in res:
        try:
            g = s.frames[-1]
            chars = [45] if sgn else []
            M = mag
            ds = [z3.BitVec(fresh_name("dg"), 8) for _ in range(d)]
            # mag == sum (ds-'0')*10^k, each ds a digit character (unique)
            tot = z3.BitVecVal(0, 64)
            for x in ds: tot = z3.simplify(tot * 10 + z3.SignExt(32, z3.ZeroExt(24, x) - 48))
            for x in ds: s.pc = s.pc + (z3.ULE(48, x), z3.ULE(x, 57))
            s.pc = s.pc + (mag == tot,)
            if d > 1: s.pc = s.pc + (ds[0] != 48,)
            if d == 19:   # consequence: the digits are lexicographically at most the limit's
                lim = str((1 << 63) if sgn else (1 << 63) - 1); le = z3.BoolVal(True)
                for x, y in reversed(list(zip(ds, lim))): le = z3.Or(z3.ULT(x, ord(y)), z3.And(x == ord(y), le))
                s.pc = s.pc + (le,)
            s.model = None
            cs = chars + ds + [0]
            p = ex.deref(s, dst, len(cs), loc, "store")
            for k, c in enumerate(cs): ex.store(s, Ptr(p.obj, addc(p.off, k)), 1, c, loc)
            if I.res: g.env[I.res] = len(cs) - 1
            g.ip += 1
            ex.push(s)
        except PathEnd: pass
    return FORKED

def write_text(ex, st, dst, bs, loc):
    p = ex.deref(st, dst, len(bs), loc, "store")
    for k, c in enumerate(bs): ex.store(st, Ptr(p.obj, addc(p.off, k)), 1, c, loc)

@intr("strtod")
def _(ex, st, f, I, a):
    # assumed contract: a function of the text only (uninterpreted)
    return z3.BitVec(fresh_name("strtod"), 64)
