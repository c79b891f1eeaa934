"""Symbolic executor / VC generator over LLVM IR (merging, path-sensitive, with contracts and loop cuts)."""
import heapq, time, sys, os
import z3
import ir
from ir import Const, ty_size, field_off, BIN, CAST
from vals import *
from vals import _cnt

sys.setrecursionlimit(20000)

class Frame:
    __slots__ = ("fn", "blk", "prev", "ip", "env", "iters", "ret", "kind", "allocas", "cutctx")
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.prev, f.ip, f.ret, f.kind, f.cutctx = self.fn, self.blk, self.prev, self.ip, self.ret, self.kind, self.cutctx
        f.env = dict(self.env); f.iters = dict(self.iters); f.allocas = list(self.allocas)
        return f

class State:
    __slots__ = ("frames", "pc", "mem", "model", "ghost", "trace", "retval", "nd", "stamp")
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() if i == len(self.frames) - 1 else f for i, f in enumerate(self.frames)]
        # lower frames are shared; copied on return
        s.pc = self.pc; s.mem = dict(self.mem); s.model = self.model; s.ghost = dict(self.ghost); s.trace = self.trace
        s.retval = self.retval; s.nd = self.nd
        s.stamp = object(); self.stamp = object()
        return s

class Failure:
    def __init__(self, name, loc, kind, st, cond, model, status):
        self.name, self.loc, self.kind, self.status = name, loc, kind, status
        self.model = model; self.cond = cond; self.pc = st.pc; self.nd = st.nd; self.trace = st.trace

class SolverBox:
    """incremental solver with the path condition as an assertion stack"""
    def __init__(self, stats, timeout_ms=6000):
        self.stats = stats; self.timeout = timeout_ms; self.axioms = []
        self.reset()
    def reset(self):
        self.s = z3.Solver(); self.s.set("timeout", self.timeout); self.stack = []
        for a in self.axioms: self.s.add(a)
        self.n = 0
    def sync(self, pc):
        i = 0
        m = min(len(self.stack), len(pc))
        st = self.stack
        while i < m and st[i] is pc[i]: i += 1
        if len(st) > i:
            self.s.pop(len(st) - i); del st[i:]
        for c in pc[i:]:
            self.s.push(); self.s.add(c); st.append(c)
    def cone_unsat(self, pc, extra):
        """is extra refuted by the part of the path condition that shares inputs with it?  (any subset is sound for unsat)"""
        if len(pc) < 10: return False
        want = set(leaves(extra)); sel = []; rest = [(c, leaves(c)) for c in pc]
        for _ in range(2):
            hit = [x for x in rest if not x[1].isdisjoint(want)]
            if not hit: break
            sel += [c for c, _ in hit]
            if len(sel) * 2 > len(pc): return False
            rest = [x for x in rest if x[1].isdisjoint(want)]
            for c, l in hit: want |= l
        t = time.time()
        s = z3.Solver(); s.set("timeout", 3000)
        for a in self.axioms: s.add(a)
        for c in sel: s.add(c)
        s.add(extra)
        r = s.check() == z3.unsat
        self.stats["queries"] += 1; self.stats["solver_s"] += time.time() - t
        return r
    def check(self, pc, extra=None, cone=False):
        if cone and extra is not None and self.cone_unsat(pc, extra): return z3.unsat, None
        t = time.time()
        self.n += 1
        if self.n > 4000: self.reset()
        self.sync(pc)
        r = self.s.check(extra) if extra is not None else self.s.check()
        m = self.s.model() if r == z3.sat else None
        dt = time.time() - t
        self.stats["queries"] += 1; self.stats["solver_s"] += dt
        if dt > 1 and os.environ.get("VC_SLOW"): print("slow query %.2fs %s %s" % (dt, r, str(extra)[:200]), file=sys.stderr)
        return r, m

_leaf = {}; _leafkeep = []
def leaves(t):
    """the inputs a term depends on: free constants, array cells at constant indices (an array read elsewhere counts as the whole array)"""
    r = _leaf.get(t.get_id())
    if r is not None: return r
    st = [t]
    while st:
        x = st[-1]
        if x.get_id() in _leaf: st.pop(); continue
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_SELECT and z3.is_bv_value(x.arg(1)) and x.arg(0).num_args() == 0:
            r = frozenset((("sel", x.arg(0).get_id(), x.arg(1).as_long()),))
        elif k == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0: r = frozenset((x.get_id(),))
        elif z3.is_quantifier(x): r = frozenset()
        else:
            todo = [c for c in x.children() if c.get_id() not in _leaf]
            if todo: st += todo; continue
            r = frozenset().union(*[_leaf[c.get_id()] for c in x.children()]) if x.num_args() else frozenset()
            if k == z3.Z3_OP_UNINTERPRETED: r = r | {("uf", x.decl().name())}
        _leaf[x.get_id()] = r; _leafkeep.append(x); st.pop()
    return _leaf[t.get_id()]

def fresh_check(pc, extra, axioms, stats, timeout_ms=60000):
    t = time.time()
    s = z3.Solver(); s.set("timeout", min(timeout_ms, 5000))
    for c in axioms: s.add(c)
    for c in pc: s.add(c)
    if extra is not None: s.add(extra)
    r = s.check()
    if r == z3.unknown and timeout_ms > 5000:
        r = race(s.assertions(), stats, timeout_ms / 1000)
        if r == z3.sat:   # for its model
            s.set("timeout", timeout_ms); r = s.check()
    m = s.model() if r == z3.sat else None
    stats["queries"] += 1; stats["solver_s"] += time.time() - t
    return r, m

from race import race
class PathEnd(Exception): pass

class Exec:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.o = {"max_unroll": 80, "merge": True, "merge_consts": False, "check_nsw": True, "max_steps": 4000000, "deadline": None}
        self.progress = ()
        self.o.update(opts or {})
        self.stats = {"queries": 0, "solver_s": 0.0, "obligations": 0, "discharged": 0, "steps": 0, "paths": 0, "forks": 0, "merges": 0}
        self.sb = SolverBox(self.stats)
        self.gobj = {}            # obj id -> Obj (shared)
        self.gid = {}             # global name -> obj id
        self.nobj = [1]
        self.failures = []
        self.unknowns = []
        self.obl = {}             # (name, loc) -> [count, failed]
        self.covered = set()
        self.contracts = {}       # symbol -> contract function symbol
        self.used_contracts = set()
        self.cutfns = set()
        self.externs = {}
        self.under_check = None
        self.mode = "verify"      # "verify" | "houdini" | "concrete"
        self.queue = []
        self.qseq = 0
        self.ended = []
        self.cut_arrivals = []
        self.fn_seen = set()
        self.assumed_externs = set()
        self.finals = []
        self.axioms = self.sb.axioms
        self.nds = {}
        self.uf = {}
        self.covers = set(); self.manager = None; self.anys = {}; self.foralls = []; self.fact_defs = {}; self.in_ctor = False; self.alloc_ids = {}
        self.loc_cache = {}; self.loc_keep = []; self.loc_solver = None; self.loc_n = 0

    # -------------------------------------------------------- globals
    def global_id(self, name):
        if name in self.gid: return self.gid[name]
        if name in self.m.aliases:
            x = self.m.aliases[name]
            if isinstance(x, Const) and x.k == "glob": return self.global_id(x.v)
        t, init, const = self.m.globals[name]
        i = self.new_id()
        self.gid[name] = i
        try: sz = ty_size(t)
        except Exception: sz = 0
        o = Obj(name, sz, const=const, kind="global")
        self.gobj[i] = o
        if init is not None: self.init_store(o, 0, t, init)
        return i

    def new_id(self):
        i = self.nobj[0]; self.nobj[0] += 1; return i

    def init_store(self, o, off, t, c):
        if c.k == "zero":
            o.zero = True
            # explicit cells not required: reads default to zero
            for q in range(ty_size(t)):
                pass
            o.tag = o.tag
            if off != 0 or ty_size(t) != o.size:
                if ty_size(t) <= 4096:
                    for b in range(0, ty_size(t)): o.cells[off + b] = (1, 0)
            return
        if c.k == "undef": return
        if c.k == "str":
            for j, b in enumerate(c.v): o.cells[off + j] = (1, b)
            return
        if c.k == "agg":
            if t.k == "struct":
                for j, (e, x) in enumerate(zip(t.el, c.v)): self.init_store(o, off + field_off(t, j), e, x)
            else:
                es = ty_size(t.el)
                for j, x in enumerate(c.v): self.init_store(o, off + j * es, t.el, x)
            return
        v = self.const(c)
        o.cells[off] = (ty_size(t), v)

    # -------------------------------------------------------- constants
    def const(self, c):
        k = c.k
        if k == "int": return c.v & mask(c.ty.w)
        if k == "null": return 0
        if k == "glob":
            n = c.v[1:]
            if c.v in self.m.globals or c.v in self.m.aliases:
                if c.v in self.m.aliases:
                    x = self.m.aliases[c.v]
                    return self.const(x)
                return Ptr(self.global_id(c.v), 0)
            return FnPtr(c.v)
        if k == "undef":
            return self.undef(c.ty)
        if k == "zero": return self.zero(c.ty)
        if k == "gep":
            t, ops = c.v
            return self.gep(t, [(ty, self.const(x)) for ty, x in ops])
        if k == "cast":
            op, t, x, t2 = c.v
            return self.cast(op, t, self.const(x), t2)
        if k == "bin":
            op, x, y = c.v
            return self.binop(op, c.ty.w, self.const(x), self.const(y))
        if k == "agg":
            return tuple(self.const(x) for x in c.v)
        if k in ("fpdec", "fphex"):
            import struct
            if k == "fpdec": d = float(c.v)
            else: 
                if c.v[2] in "KMLHR": return int(c.v[3:], 16)
                d = struct.unpack(">d", int(c.v, 16).to_bytes(8, "big"))[0]
            if c.ty.w == 32: return struct.unpack("<I", struct.pack("<f", d))[0]
            return struct.unpack("<Q", struct.pack("<d", d))[0]
        raise Unsupported("const " + k)

    def undef(self, t):
        if t.k in ("int",): 
            if t.w == 1: return z3.Bool(fresh_name("undef"))
            return z3.BitVec(fresh_name("undef"), t.w)
        if t.k == "ptr": return 0
        if t.k == "fp": return z3.BitVec(fresh_name("undef"), t.w)
        if t.k == "struct": return tuple(self.undef(e) for e in t.el)
        if t.k in ("arr", "vec"): return tuple(self.undef(t.el) for _ in range(t.n))
        raise Unsupported("undef")
    def zero(self, t):
        if t.k in ("int", "ptr", "fp"): return 0
        if t.k == "struct": return tuple(self.zero(e) for e in t.el)
        return tuple(self.zero(t.el) for _ in range(t.n))

    # -------------------------------------------------------- arithmetic
    def gep(self, t, ops):
        base = ops[0][1]
        off = 0
        cur = t
        for j, (ty, v) in enumerate(ops[1:]):
            if j == 0:
                off = self._acc(off, v, ty.w, ty_size(cur)); continue
            if cur.k == "struct":
                off = addc(off, field_off(cur, v)); cur = cur.el[v]
            else:
                off = self._acc(off, v, ty.w, ty_size(cur.el)); cur = cur.el
        return self.ptradd(base, off)

    def _acc(self, off, v, w, sz):
        if isinstance(v, int):
            if w < 64 and v >> (w - 1): v -= 1 << w
            return addc(off, v * sz)
        if w < 64: v = z3.SignExt(64 - w, bv(v, w))
        if isinstance(v, Ptr): v = bv(v, 64)
        x = v if sz == 1 else v * z3.BitVecVal(sz, 64)
        return add64(off, lin_norm(x))

    def ptradd(self, base, off):
        if isinstance(base, Ptr): return Ptr(base.obj, add64(base.off, off))
        if isinstance(base, FnPtr): 
            if off == 0: return base
            raise Unsupported("fnptr arithmetic")
        if isinstance(base, int) and isinstance(off, int): return self.to_ptr((base + off) & mask(64))
        return self.to_ptr(add64(base, off))

    def to_ptr(self, v):
        """int/BV -> pointer value if the object can be determined syntactically"""
        if isinstance(v, (Ptr, FnPtr)): return v
        if isinstance(v, int):
            b = v >> BASE_SHIFT
            if b >= 16 and b < (1 << 20):
                o = v - (b << BASE_SHIFT)
                return Ptr(b - 16, o)
            if v >= (1 << 60):
                for n, i in __import__("vals")._fnids.items():
                    if (1 << 60) + i * 16 == v: return FnPtr(n)
            return v
        c, d = lin(v)
        b = c >> BASE_SHIFT
        if 16 <= b < (1 << 20): return Ptr(b - 16, lin_build(c - (b << BASE_SHIFT), d))
        # negative offset from a base
        return v

    def binop(self, op, w, a, b):
        if w == 1 and not (isinstance(a, int) and isinstance(b, int)):
            A, B = boolv(a), boolv(b)
            if op == "and":
                if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0): return 0
                r = z3.And(A, B)
            elif op == "or": r = z3.Or(A, B)
            elif op in ("xor", "add", "sub"): r = z3.Xor(A, B)
            else: raise Unsupported("i1 " + op)
            return norm(z3.simplify(r))
        if isinstance(a, int) and isinstance(b, int):
            M = mask(w)
            sg = lambda x: x - (1 << w) if x >> (w - 1) else x
            if op == "add": return (a + b) & M
            if op == "sub": return (a - b) & M
            if op == "mul": return (a * b) & M
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return (a << b) & M if b < w else 0
            if op == "lshr": return a >> b if b < w else 0
            if op == "ashr": return (sg(a) >> min(b, w - 1)) & M
            if op == "udiv": return a // b if b else 0
            if op == "urem": return a % b if b else 0
            if op == "sdiv":
                if not b: return 0
                x, y = sg(a), sg(b); q = abs(x) // abs(y); return (q if (x < 0) == (y < 0) else -q) & M
            if op == "srem":
                if not b: return 0
                x, y = sg(a), sg(b); q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                return (x - q * y) & M
            if op in ("fadd", "fsub", "fmul", "fdiv") and w == 64:
                import struct
                x = struct.unpack("<d", struct.pack("<Q", a))[0]; y = struct.unpack("<d", struct.pack("<Q", b))[0]
                try: r = {"fadd": x + y, "fsub": x - y, "fmul": x * y, "fdiv": x / y if y else float("nan")}[op]
                except OverflowError: r = float("inf")
                return struct.unpack("<Q", struct.pack("<d", r))[0]
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return self.ufapp(op, w, a, b)
        if w == 64:
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj: return sub64(a.off, b.off)
            if op == "add" and isinstance(a, Ptr) and not isinstance(b, Ptr): return Ptr(a.obj, add64(a.off, b))
            if op == "add" and isinstance(b, Ptr) and not isinstance(a, Ptr): return Ptr(b.obj, add64(b.off, a))
            if op == "sub" and isinstance(a, Ptr) and not isinstance(b, Ptr): return Ptr(a.obj, sub64(a.off, b))
            if isinstance(a, (Ptr, FnPtr)): a = norm(z3.simplify(bv(a, 64)))
            if isinstance(b, (Ptr, FnPtr)): b = norm(z3.simplify(bv(b, 64)))
            if isinstance(a, int) and isinstance(b, int): return self.binop(op, w, a, b)
            if op == "add": return add64(a, b)
            if op == "sub": return sub64(a, b)
        if isinstance(a, int):
            if a == 0 and op in ("and", "mul", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"): return 0
            if a == 0 and op in ("or", "xor", "add"): return b
        if isinstance(b, int):
            if b == 0 and op in ("or", "xor", "add", "sub", "shl", "lshr", "ashr"): return a
            if b == 0 and op in ("and", "mul"): return 0
            if b == mask(w) and op == "and": return a
            if b == 1 and op in ("mul", "udiv", "sdiv"): return a
        A, B = bv(a, w), bv(b, w)
        if op == "add": r = A + B
        elif op == "sub": r = A - B
        elif op == "mul": r = A * B
        elif op == "and": r = A & B
        elif op == "or": r = A | B
        elif op == "xor": r = A ^ B
        elif op == "shl": r = A << B
        elif op == "lshr": r = z3.LShR(A, B)
        elif op == "ashr": r = A >> B
        elif op == "udiv": r = z3.UDiv(A, B)
        elif op == "urem": r = z3.URem(A, B)
        elif op == "sdiv": r = A / B
        elif op == "srem": r = z3.SRem(A, B)
        else: raise Unsupported(op)
        return norm(z3.simplify(r))

    def ufapp(self, name, w, *args):
        ws = [w] * len(args)
        f = z3.Function("uf_%s_%d" % (name, w), *([z3.BitVecSort(w)] * (len(args) + 1)))
        return f(*[bv(a, w) for a in args])

    def cast(self, op, t, v, t2):
        if op in ("trunc", "zext", "sext"):
            w, w2 = t.w, t2.w
            if isinstance(v, int):
                if op == "sext" and v >> (w - 1): v |= mask(w2) & ~mask(w)
                return v & mask(w2)
            if isinstance(v, (Ptr, FnPtr)): v = norm(z3.simplify(bv(v, 64)))
            if isinstance(v, int): return self.cast(op, t, v, t2)
            if op == "trunc":
                if w2 == 1: return norm(z3.simplify(z3.Extract(0, 0, v) == 1))
                return norm(z3.simplify(z3.Extract(w2 - 1, 0, v)))
            if isinstance(v, z3.BoolRef):
                if op == "zext": return z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
                return z3.If(v, z3.BitVecVal(mask(w2), w2), z3.BitVecVal(0, w2))
            if op == "zext": return z3.ZeroExt(w2 - w, v)
            return z3.SignExt(w2 - w, v)
        if op in ("bitcast", "ptrtoint"): 
            if op == "ptrtoint" and t2.w != 64:
                return self.cast("trunc", ir.INT(64), norm(z3.simplify(bv(v, 64))), t2)
            return v
        if op == "inttoptr": return self.to_ptr(v)
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            if isinstance(v, int) and op in ("sitofp", "uitofp") and t2.w == 64:
                import struct
                x = v - (1 << t.w) if op == "sitofp" and v >> (t.w - 1) else v
                return struct.unpack("<Q", struct.pack("<d", float(x)))[0]
            f = z3.Function("uf_%s_%d_%d" % (op, t.w, t2.w), z3.BitVecSort(t.w), z3.BitVecSort(t2.w))
            return f(bv(v, t.w))
        raise Unsupported(op)

    def icmp(self, pred, w, a, b):
        sp = (Ptr, FnPtr)
        if isinstance(a, sp) or isinstance(b, sp):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    a, b = a.off, b.off; w = 64
                    if not pred in ("eq", "ne"): pred = pred.replace("s", "u") if pred[0] == "s" else pred
                elif pred == "eq": return 0
                elif pred == "ne": return 1
                else: a, b = obj_base(a.obj), obj_base(b.obj)
            elif isinstance(a, sp) and isinstance(b, int) and b == 0:
                if pred == "eq": return 0
                if pred == "ne": return 1
                a = simp(bv(a, 64))
            elif isinstance(b, sp) and isinstance(a, int) and a == 0:
                if pred == "eq": return 0
                if pred == "ne": return 1
                b = simp(bv(b, 64))
            elif isinstance(a, FnPtr) and isinstance(b, FnPtr):
                return int((a == b) == (pred == "eq"))
            else:
                a = simp(bv(a, 64)); b = simp(bv(b, 64))
        if isinstance(a, int) and isinstance(b, int):
            sg = lambda x: x - (1 << w) if x >> (w - 1) else x
            if pred == "eq": return int(a == b)
            if pred == "ne": return int(a != b)
            if pred[0] == "s": a, b = sg(a), sg(b)
            p = pred[1:]
            return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])
        if w == 1:
            A, B = boolv(a), boolv(b)
            r = A == B if pred == "eq" else z3.Xor(A, B)
            return norm(z3.simplify(r))
        if w == 64:
            d = lin_diff(a, b)
            if d == 0: return int(pred in ("eq", "ule", "uge", "sle", "sge"))
            if d is not None and pred in ("eq", "ne"): return int(pred == "ne")
        elif is_sym(a) and is_sym(b) and a.get_id() == b.get_id():
            return int(pred in ("eq", "ule", "uge", "sle", "sge"))
        A, B = bv(a, w), bv(b, w)
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B),
             "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B), "slt": lambda: A < B, "sle": lambda: A <= B,
             "sgt": lambda: A > B, "sge": lambda: A >= B}[pred]()
        return norm(z3.simplify(r))

    def fcmp(self, pred, w, a, b):
        so = z3.Float64() if w == 64 else z3.Float32()
        A, B = z3.fpBVToFP(bv(a, w), so), z3.fpBVToFP(bv(b, w), so)
        un = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
        if pred in ("ord",): r = z3.Not(un)
        elif pred == "uno": r = un
        else:
            base = {"eq": z3.fpEQ(A, B), "ne": z3.Not(z3.fpEQ(A, B)), "lt": z3.fpLT(A, B), "le": z3.fpLEQ(A, B), "gt": z3.fpGT(A, B), "ge": z3.fpGEQ(A, B)}[pred[1:]]
            r = z3.And(z3.Not(un), base) if pred[0] == "o" else z3.Or(un, base)
        return norm(z3.simplify(r))

    # -------------------------------------------------------- memory
    def obj(self, st, i):
        o = st.mem.get(i)
        if o is None: o = self.gobj.get(i)
        return o
    def wobj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.gobj[i].copy(); o.owner = st.stamp
            st.mem[i] = o
            return o
        # copy-on-write: objects in st.mem may be shared between states
        if o.owner is st.stamp: return o
        o = o.copy(); o.owner = st.stamp
        st.mem[i] = o
        return o

    def alloc(self, st, name, size, cw=0, zero=False, kind="heap"):
        key = tuple((f.fn.name, f.blk, f.ip, f.iters.get("@p", 0) if f.fn.name in self.progress else tuple(sorted(f.iters.items()))) for f in st.frames) + (name,)
        n = 0
        while True:
            i = self.alloc_ids.get((key, n))
            if i is None: i = self.alloc_ids[(key, n)] = self.new_id()
            if i not in st.mem: break
            n += 1
        st.mem[i] = Obj(name, size, cw=cw, zero=zero, kind=kind)
        return Ptr(i, 0)

    def ensure_arr(self, o, cw):
        """convert to chain form with cell width cw"""
        if o.arr is not None: return
        if o.cw == 0: o.cw = cw
        cw = o.cw
        if o.cells and o.const or (o.kind == "global" and o.const):
            n = o.size // cw
            tab = []
            for k in range(n): tab.append(self.cells_get(o, k * cw, cw))
            o.arr = Base("tab", 8 * cw, tab=tab)
            return
        b = Base("zero", 8 * cw) if o.zero else fresh_base(8 * cw, "M_" + "".join(c for c in o.name if c.isalnum())[:12])
        ch = b
        if o.cells:
            idxs = set()
            for off, (n, v) in o.cells.items():
                for k in range(off // cw, (off + n - 1) // cw + 1): idxs.add(k)
            for k in sorted(idxs):
                ch = St(ch, k, self.cells_get(o, k * cw, cw))
        o.arr = ch
        o.cells = {}

    def cells_get(self, o, off, n):
        c = o.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        parts = []
        k = off
        while k < off + n:
            hit = None
            for d in range(0, 9):
                q = o.cells.get(k - d)
                if q is not None and q[0] > d: hit = (k - d, q); break
            if hit is None:
                # uninitialised / zero
                if o.arr is not None: v = None
                if o.zero: parts.append((1, 0)); k += 1; continue
                # coalesce uninit bytes up to next cell
                j = k + 1
                while j < off + n and j not in o.cells: j += 1
                v = z3.BitVec(fresh_name("uninit"), 8 * (j - k))
                o.cells[k] = (j - k, v) if (j - k) in (1, 2, 4, 8) else (j - k, v)
                parts.append((j - k, v)); k = j; continue
            s, (cn, cv) = hit
            lo = k - s
            cnt = min(cn - lo, off + n - k)
            parts.append((cnt, extract_bytes(cv, cn, lo, cnt)))
            k += cnt
        return concat_bytes(parts)

    def decide(self, st):
        def d(c):
            c = norm(z3.simplify(c))
            if isinstance(c, int): return bool(c)
            if not self.o.get("decide_reads", True): return None
            r, _ = self.sb.check(st.pc, c)
            if r == z3.unsat: return False
            r, _ = self.sb.check(st.pc, z3.Not(c))
            if r == z3.unsat: return True
            return None
        return d

    def load(self, st, p, n, loc):
        """returns raw value of n bytes (Ptr allowed when stored as such)"""
        p = self.deref(st, p, n, loc, "load")
        o = self.obj(st, p.obj)
        if isinstance(p.off, int) and o.arr is None:
            c = o.cells.get(p.off)
            if c is not None and c[0] == n: return c[1]
            if o.kind != "global" or not o.const:
                o = self.wobj(st, p.obj)
            return self.cells_get(o, p.off, n)
        if o.arr is None:
            if o.const and p.obj in self.gobj: pass
            else: o = self.wobj(st, p.obj)
            self.ensure_arr(o, n)
        cw = o.cw
        idx, rem = scale(p.off, cw)
        if idx is None: raise Unsupported("misaligned symbolic access to %s (cw %d) at %s" % (o.name, cw, loc))
        dec = self.decide(st) if self.o.get("decide_reads", False) else None
        if rem == 0 and n == cw: return read_chain(o.arr, idx, 8 * cw, dec)
        parts = []; got = 0
        while got < n:
            v = read_chain(o.arr, idx, 8 * cw, dec)
            cnt = min(cw - rem, n - got)
            parts.append((cnt, extract_bytes(v, cw, rem, cnt)))
            got += cnt; rem = 0; idx = addc(idx, 1)
        return concat_bytes(parts)

    def store(self, st, p, n, v, loc):
        p = self.deref(st, p, n, loc, "store")
        o = self.wobj(st, p.obj)
        if o.const:
            self.fail_now(st, "write to constant object " + o.name, loc, "memory")
        if isinstance(p.off, int) and o.arr is None:
            off = p.off
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                o.cells[off] = (n, v); return
            # split overlapping cells
            for k in range(off - 8, off + n):
                q = o.cells.get(k)
                if q is None or k + q[0] <= off: continue
                cn, cv = q
                del o.cells[k]
                if k < off: o.cells[k] = (off - k, extract_bytes(cv, cn, 0, off - k))
                if k + cn > off + n: o.cells[off + n] = (k + cn - off - n, extract_bytes(cv, cn, off + n - k, k + cn - off - n))
            o.cells[off] = (n, v)
            return
        self.ensure_arr(o, n)
        cw = o.cw
        idx, rem = scale(p.off, cw)
        if idx is None: raise Unsupported("misaligned symbolic store to %s at %s" % (o.name, loc))
        if isinstance(v, z3.BoolRef): v = bv(v, 8 * n)
        if rem == 0 and n == cw:
            o.arr = St(o.arr, idx, v); return
        got = 0
        while got < n:
            cnt = min(cw - rem, n - got)
            part = extract_bytes(v, n, got, cnt)
            if cnt != cw:
                old = read_chain(o.arr, idx, 8 * cw)
                ps = []
                if rem: ps.append((rem, extract_bytes(old, cw, 0, rem)))
                ps.append((cnt, part))
                if rem + cnt < cw: ps.append((cw - rem - cnt, extract_bytes(old, cw, rem + cnt, cw - rem - cnt)))
                part = concat_bytes(ps)
            o.arr = St(o.arr, idx, part)
            got += cnt; rem = 0; idx = addc(idx, 1)

    def deref(self, st, p, n, loc, what):
        if not isinstance(p, Ptr):
            q = self.to_ptr(p)
            if isinstance(q, Ptr): p = q
            else: p = self.resolve(st, p, loc, what)
        o = self.obj(st, p.obj)
        if o is None: raise Unsupported("dangling object %s" % p.obj)
        if o.freed: self.fail_now(st, "use of freed/dead object %s" % o.name, loc, "memory")
        if o.size is not None:
            if isinstance(p.off, int) and isinstance(o.size, int):
                if p.off + n > o.size:
                    self.fail_now(st, "out-of-bounds %s of %s" % (what, o.name), loc, "memory")
            elif n:
                end = bv(addc(o.size, -n), 64) if not isinstance(o.size, int) else z3.BitVecVal((o.size - n) & mask(64), 64)
                c = z3.And(z3.ULE(bv(p.off, 64), end), z3.UGE(bv(o.size, 64), n))
                self.oblige(st, c, "bounds %s of %s" % (what, o.name.lstrip("@")), loc, "memory")
        return p

    def resolve(self, st, v, loc, what):
        """wild pointer: find the unique feasible object using the solver"""
        if isinstance(v, int):
            self.fail_now(st, "%s through %s pointer" % (what, "null" if v == 0 else "invalid"), loc, "memory")
        r, m = self.sb.check(st.pc)
        if r != z3.sat: raise PathEnd()
        val = m.eval(bv(v, 64), model_completion=True).as_long()
        b = val >> BASE_SHIFT
        oid = b - 16
        inr = z3.And(z3.UGE(v, z3.BitVecVal(obj_base(oid), 64)), z3.ULT(v, z3.BitVecVal(obj_base(oid + 1), 64))) if self.obj(st, oid) is not None else z3.BoolVal(False)
        self.oblige(st, inr, "%s through a valid pointer" % what, loc, "memory")
        return Ptr(oid, sub64(v, obj_base(oid)))

    # -------------------------------------------------------- obligations
    def loc(self, I):
        if I is not None and I.md is not None: return ir.dbg_loc(self.m, I.md)
        return "?"

    def record(self, name, loc, ok):
        k = (name, loc)
        r = self.obl.setdefault(k, [0, 0])
        r[0] += 1
        if not ok: r[1] += 1

    def oblige(self, st, cond, name, loc, kind):
        """prove cond on every execution reaching here, then assume it"""
        c = simp(cond)
        if self.mode != "verify":
            if isinstance(c, int):
                if not c: raise PathEnd()
            else: self.assume(st, c)
            return
        self.stats["obligations"] += 1
        if isinstance(c, int) and c:
            self.stats["discharged"] += 1; self.record(name, loc, True); return
        neg = z3.BoolVal(True) if isinstance(c, int) else z3.Not(c)
        if not isinstance(c, int) and self.local_status(c) == 1:
            self.stats["discharged"] += 1; self.record(name, loc, True); return
        r, m = self.sb.check(st.pc, neg, cone=True)
        if r == z3.unknown:
            r, m = fresh_check(st.pc, neg, self.axioms, self.stats, 120000)
        if r == z3.unsat:
            self.stats["discharged"] += 1; self.record(name, loc, True)
            if not isinstance(c, int): st.pc = st.pc + (c,)
            else: raise PathEnd()
            return
        if r == z3.sat and self.anys:
            from houdini import instantiate
            q = list(st.pc) + [neg]
            ins = self.manager.instances(q) if self.manager is not None else instantiate(self, self.foralls, q)
            if ins:
                r, m = fresh_check(st.pc, z3.And(neg, *ins), self.axioms, self.stats, 180000)
                if r == z3.unsat:
                    self.stats["discharged"] += 1; self.record(name, loc, True)
                    if not isinstance(c, int): st.pc = st.pc + (c,)
                    else: raise PathEnd()
                    return
        self.record(name, loc, False)
        f = Failure(name, loc, kind, st, c, m, "refuted" if r == z3.sat else "unknown")
        if r == z3.sat: self.failures.append(f)
        else: self.unknowns.append(f)
        if len(self.failures) >= self.o.get("max_failures", 3): raise StopRun()
        if isinstance(c, int): raise PathEnd()
        r, m = self.sb.check(st.pc, c)
        if r == z3.unsat: raise PathEnd()
        self.assume(st, c)

    def fail_now(self, st, name, loc, kind):
        self.oblige(st, 0, name, loc, kind)
        raise PathEnd()

    def assume(self, st, c):
        c = simp(c)
        if isinstance(c, int):
            if not c: raise PathEnd()
            return
        # drop stale model
        st.pc = st.pc + (c,)
        if st.model is not None:
            if not z3.is_true(st.model.eval(c, model_completion=True)): st.model = None

    # -------------------------------------------------------- control
    def pos_key(self, st):
        k = []
        for i, f in enumerate(st.frames):
            fn = f.fn
            if fn.name in self.progress: k.append(f.iters.get("@p", 0))
            else:
              for h in fn.nest[f.blk]:
                k.append(fn.rpo[h]); k.append(f.iters.get(h, 0))
            k.append(fn.rpo[f.blk])
            k.append(f.ip)
        return (st.ghost.get("splits", ()), tuple(k))     # the cases of a split run one after another

    def push(self, st):
        self.qseq += 1
        st_key = self.pos_key(st)
        heapq.heappush(self.queue, (st_key, self.qseq, st))

    def start(self, st, fn, args):
        f = self.enter(st, fn, args, None, "top")
        return f

    def enter(self, st, fn, args, ret, kind):
        ir.analyze(fn)
        f = Frame.__new__(Frame)
        f.fn = fn; f.blk = fn.entry; f.prev = None; f.ip = 0; f.iters = {}; f.ret = ret; f.kind = kind; f.allocas = []; f.cutctx = None
        f.env = {}
        for (t, n), v in zip(fn.params, args): f.env[n] = v
        if fn.vararg and len(args) > len(fn.params): f.env["..."] = args[len(fn.params):]
        st.frames.append(f)
        self.fn_seen.add(fn.name)
        if len(st.frames) > self.o.get("max_depth", 200): raise Unsupported("call depth " + ", ".join(f.fn.name[-60:] for f in st.frames[-4:]))
        return f

    def new_state(self):
        s = State.__new__(State)
        s.frames = []; s.pc = (); s.mem = {}; s.model = None; s.ghost = {}; s.trace = (); s.retval = None; s.nd = (); s.stamp = object()
        return s

    def run(self, st=None):
        if st is not None: self.push(st)
        try:
            while self.queue:
                key, _, s = heapq.heappop(self.queue)
                if self.o["merge"]:
                    while self.queue and self.queue[0][0] == key:
                        # try to merge all states waiting at this key
                        group = [s]
                        while self.queue and self.queue[0][0] == key: group.append(heapq.heappop(self.queue)[2])
                        group = self.merge_group(group)
                        s = group[0]
                        for g in group[1:]:
                            # process others afterwards, individually
                            self.run_one(g)
                        break
                self.run_one(s)
                if self.o["deadline"] and time.time() > self.o["deadline"]: raise Unsupported("deadline")
        except StopRun:
            self.queue = []

    def run_one(self, s):
        try:
            self.step_until_fork(s)
        except PathEnd:
            self.stats["paths"] += 1

    def merge_group(self, group):
        out = []
        for s in group:
            for i, t in enumerate(out):
                m = self.try_merge(t, s)
                if m is not None: out[i] = m; self.stats["merges"] += 1; break
            else: out.append(s)
        return out

    def mergeable(self, a, b):
        """None if not mergeable else True"""
        if same(a, b): return True
        if isinstance(a, tuple) or isinstance(b, tuple):
            return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(self.mergeable(x, y) for x, y in zip(a, b))
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return self.o["merge_consts"] or (is_sym(a.off) and is_sym(b.off) and self.o.get("merge_offs", False))
            return False
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef): return True
        if isinstance(a, int) or isinstance(b, int): return self.o["merge_consts"]
        return a.size() == b.size()

    def mergev(self, g, a, b, w=None):
        if same(a, b): return a
        if isinstance(a, tuple): return tuple(self.mergev(g, x, y) for x, y in zip(a, b))
        if isinstance(a, Ptr): return Ptr(a.obj, z3.If(g, bv(a.off, 64), bv(b.off, 64)))
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            return norm(z3.simplify(z3.If(g, boolv(a), boolv(b))))
        if w is None: w = a.size() if is_sym(a) else b.size()
        return norm(z3.simplify(z3.If(g, bv(a, w), bv(b, w))))

    def tyw(self, fr, n):
        return self.valty(fr.fn, n)

    def valty(self, fn, n):
        d = getattr(fn, "_vt", None)
        if d is None:
            d = {}
            for t, p in fn.params: d[p] = t
            for B in fn.blocks.values():
                for I in B.phis: d[I.res] = I.ty
                for I in B.ins:
                    if I.res: d[I.res] = ir.INT(1) if I.op in ("icmp", "fcmp") else I.ty
            fn._vt = d
        return d[n]

    def try_merge(self, a, b):
        if len(a.frames) != len(b.frames): return None
        for fa, fb in zip(a.frames, b.frames):
            if fa.fn is not fb.fn or fa.blk != fb.blk or fa.ip != fb.ip or fa.kind != fb.kind: return None
        if a.ghost != b.ghost:
            ks = set(a.ghost) | set(b.ghost)
            for k in ks:
                if not same(a.ghost.get(k), b.ghost.get(k)): return None
        # live env
        diffs = []
        for fi, (fa, fb) in enumerate(zip(a.frames, b.frames)):
            if fa is fb: continue
            if fi == len(a.frames) - 1 and fa.ip == 0:
                live = set(fa.fn.live[fa.blk]) | {p.res for p in fa.fn.blocks[fa.blk].phis}
            else: live = self.live_at(fa, fi < len(a.frames) - 1)
            for n in live:
                va, vb = fa.env.get(n), fb.env.get(n)
                if va is None and vb is None: continue
                if va is None or vb is None: return None
                if not self.is1(fa.fn, n) and not self.mergeable(va, vb): return None
                if not same(va, vb): diffs.append((fi, n))
        keys = [k for k, x in a.mem.items() if b.mem.get(k) is not x] + [k for k in b.mem if k not in a.mem]
        memd = []
        for k in keys:
            oa = self.obj(a, k); ob = self.obj(b, k)
            if oa is ob or oa is None or ob is None: continue
            if oa.freed != ob.freed:
                return None
            if oa.freed and ob.freed: continue
            if oa.arr is not ob.arr:
                if oa.cw != ob.cw or oa.arr is None or ob.arr is None: return None
                memd.append((k, None, None))
            if not same(oa.size, ob.size): return None
            for off in set(oa.cells) | set(ob.cells):
                ca, cb = oa.cells.get(off), ob.cells.get(off)
                if ca is None or cb is None:
                    if (ca or cb)[1] is not None and oa.kind == "stack": 
                        continue   # uninitialised on one side: handled as "keep the defined one"
                    return None
                if ca[0] != cb[0]: return None
                if not self.mergeable(ca[1], cb[1]): return None
                if not same(ca[1], cb[1]): memd.append((k, off, ca[0]))
        # merged path condition
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]: n += 1
        ga = z3.And(*a.pc[n:]) if len(a.pc) > n else z3.BoolVal(True)
        gb = z3.And(*b.pc[n:]) if len(b.pc) > n else z3.BoolVal(True)
        r = a.copy()
        g = ga
        # use the shorter guard as selector
        if len(b.pc) < len(a.pc): g = z3.Not(gb) if self.exclusive(ga, gb) else ga
        r.frames = [f.copy() for f in a.frames]
        for fi, nme in diffs:
            t = self.valty(r.frames[fi].fn, nme)
            r.frames[fi].env[nme] = self.mergev(ga, a.frames[fi].env[nme], b.frames[fi].env[nme], t.w if t.k in ("int", "fp", "ptr") else None)
        for k, off, sz in memd:
            o = self.wobj(r, k)
            oa, ob = self.obj(a, k), self.obj(b, k)
            if off is None: o.arr = IteCh(ga, oa.arr, ob.arr)
            else: o.cells[off] = (sz, self.mergev(ga, oa.cells[off][1], ob.cells[off][1], 8 * sz))
        for k in keys:
            if k not in a.mem and k in b.mem: r.mem[k] = b.mem[k]
            elif k in a.mem and k in b.mem:
                oa, ob = a.mem[k], b.mem[k]
                if oa is not ob and oa.kind == "stack" and oa.arr is ob.arr:
                    miss = [o for o in ob.cells if o not in oa.cells]
                    if miss:
                        o = self.wobj(r, k)
                        for off in miss: o.cells[off] = ob.cells[off]
        x = norm(z3.simplify(z3.Or(ga, gb)))
        if not isinstance(x, int) and self.local_status(x) == 1: x = 1
        r.pc = a.pc[:n] + (() if isinstance(x, int) else (x,))
        if a.model is None: r.model = b.model
        if b.nd is not a.nd:
            r.nd = a.nd + tuple(x for x in b.nd if not any(x is y or (x[0] == y[0] and (x[1] is y[1] or (is_sym(x[1]) and is_sym(y[1]) and x[1].get_id() == y[1].get_id()))) for y in a.nd)) if a.nd is not b.nd else a.nd
        return r

    def exclusive(self, a, b): return False

    def is1(self, fn, n):
        t = self.valty(fn, n)
        return t.k == "int" and t.w == 1

    def live_at(self, f, pending):
        """live values of a suspended/partial frame: conservative: live-out of block + operands of the rest"""
        cache = f.fn.__dict__.setdefault("_liveat", {})
        k = (f.blk, f.ip, pending)
        if k in cache: return cache[k]
        B = f.fn.blocks[f.blk]
        out = set()
        for s in B.succs:
            out |= f.fn.live[s]
            for ph in f.fn.blocks[s].phis:
                for v, l in ph.a:
                    if l == f.blk and isinstance(v, str): out.add(v)
        for I in reversed(B.ins[f.ip:]):
            if I.res: out.discard(I.res)
            out |= set(ir.operands(I))
        # instruction at ip-1 (the pending call) defines its result later
        if pending and f.ip > 0 and B.ins[f.ip - 1].res: out.discard(B.ins[f.ip - 1].res)
        cache[k] = out
        return out

    # -------------------------------------------------------- main interpreter
    def val(self, f, x):
        if isinstance(x, str): 
            return f.env[x]
        return self.const(x)

    def branch_to(self, st, tgt, phivals=None):
        f = st.frames[-1]
        fn = f.fn
        src = f.blk
        B = fn.blocks[tgt]
        if B.phis:
            vals = []
            if phivals is not None: vals = list(phivals)
            else:
              for I in B.phis:
                for v, l in I.a:
                    if l == src: vals.append(self.val(f, v)); break
                else: raise Unsupported("phi")
            for I, v in zip(B.phis, vals): f.env[I.res] = v
        # loop iteration bookkeeping
        if tgt in fn.headers:
            if src in fn.loops[tgt]:
                f.iters[tgt] = f.iters.get(tgt, 0) + 1
                for h in fn.loops[tgt]:
                    if h != tgt and h in f.iters and tgt in fn.nest.get(h, ()): del f.iters[h]
            else: f.iters[tgt] = 0
        f.prev = src; f.blk = tgt; f.ip = 0
        return B

    def at_block(self, st):
        """called when control has just entered a block; returns True to keep running inline"""
        f = st.frames[-1]
        fn = f.fn
        tgt = f.blk
        if tgt in fn.headers:
            if self.is_cut(st, f, tgt):
                self.cut_arrive(st, f, tgt)
                return False
            if f.iters.get(tgt, 0) > self.o["max_unroll"] and self.o.get("auto_cut", True) and self.mode in ("verify", "houdini") and not self.in_ctor:
                from houdini import NeedCut
                raise NeedCut(fn.name)
            if f.iters.get(tgt, 0) > self.o["max_unroll"]:
                self.oblige(st, 0, "loop in %s terminates within the stated unrolling bound %d" % (fn.name, self.o["max_unroll"]), self.loc(fn.blocks[tgt].ins[-1]), "unwind")
                raise PathEnd()
        if len(fn.blocks[tgt].preds) > 1 and self.mode != "concrete" and self.o["merge"]:
            self.push(st)
            return False
        return True

    def cut_header(self, fn, h): return fn.name in self.cutfns or (fn.name, h) in self.cutfns
    def is_cut(self, st, f, blk):
        return self.manager is not None and self.mode in ("houdini", "verify") and self.cut_header(f.fn, blk)

    def cut_arrive(self, st, f, blk):
        self.cut_arrivals.append((self.manager.key_of(st), st))

    def local_status(self, c):
        """context-free status of a condition: 1 valid, 0 unsatisfiable, None neither (cached)"""
        h = c.get_id()
        r = self.loc_cache.get(h, self)
        if r is not self: return r
        s = self.loc_solver
        if s is None or self.loc_n > 2000:
            s = self.loc_solver = z3.Solver(); s.set("timeout", 200); self.loc_n = 0
        self.loc_n += 1
        t = time.time()
        r = None
        if s.check(c) == z3.unsat: r = 0
        elif s.check(z3.Not(c)) == z3.unsat: r = 1
        self.stats["solver_s"] += time.time() - t
        self.loc_cache[h] = r; self.loc_keep.append(c)
        return r

    def feasible(self, st, c):
        """is pc and c satisfiable?  returns (bool, model)"""
        q = self.local_status(c)
        if q == 0: return False, None
        if q == 1: return True, st.model
        if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)): return True, st.model
        r, m = self.sb.check(st.pc, c, cone=True)
        if r == z3.unsat: return False, None
        return True, m

    def fork(self, st, alts):
        """alts: list of (cond, action) with cond z3 bool or 1; returns list of feasible (state, action)"""
        res = []
        feas = []
        for c, act in alts:
            if isinstance(c, int):
                if c: feas.append((c, act, st.model))
                continue
            ok, m = self.feasible(st, c)
            if ok: feas.append((c, act, m))
        for i, (c, act, m) in enumerate(feas):
            s = st if i == len(feas) - 1 else st.copy()
            if not isinstance(c, int) and len(feas) > 1:
                s.pc = s.pc + (c,)
            elif not isinstance(c, int):
                pass  # implied by the path condition
            s.model = m
            res.append((s, act))
        if len(feas) > 1: self.stats["forks"] += len(feas) - 1
        # note: st itself is reused for the last alternative, so build copies first
        return res

    def step_until_fork(self, st):
        fr = st.frames[-1]
        if not fr.kind: pass
        # the top frame may be shared (after merges/copies we always own the last frame)
        while True:
            f = st.frames[-1]
            B = f.fn.blocks[f.blk]
            ins = B.ins
            self.covered.add((f.fn.name, f.blk))
            while True:
                I = ins[f.ip]
                self.stats["steps"] += 1
                if self.stats["steps"] > self.o["max_steps"]: raise Unsupported("step limit")
                op = I.op
                h = self.H.get(op)
                if h is not None:
                    try:
                        f.env[I.res] = h(self, st, f, I)
                    except ForkSelect as e:
                        for s2, x in self.fork(st, [(e.c, I.a[1]), (norm(z3.simplify(z3.Not(e.c))), I.a[2])]):
                            g = s2.frames[-1]
                            g.env[I.res] = self.val(g, x); g.ip += 1
                            self.push(s2)
                        return
                    f.ip += 1
                    continue
                if op == "store":
                    v = self.val(f, I.a[0]); p = self.val(f, I.a[1])
                    self.store_ty(st, p, I.ty, v, I)
                    f.ip += 1
                    continue
                if op == "br":
                    c = I.a[0]
                    if c is None:
                        self.branch_to(st, I.a[1])
                        if not self.at_block(st): return
                        break
                    cv = self.val(f, c)
                    if isinstance(cv, int):
                        self.branch_to(st, I.a[1] if cv & 1 else I.a[2])
                        if not self.at_block(st): return
                        break
                    if I.a[1] == I.a[2]:
                        self.branch_to(st, I.a[1])
                        if not self.at_block(st): return
                        break
                    self.dispatch_region(st, f); return
                if op == "switch":
                    t, c, d, cs = I.a
                    cv = self.val(f, c)
                    if isinstance(cv, int):
                        tgt = d
                        for k, l in cs:
                            if (k & mask(t.w)) == cv: tgt = l; break
                        self.branch_to(st, tgt)
                        if not self.at_block(st): return
                        break
                    self.dispatch_region(st, f); return
                if op == "ret":
                    v = None if I.a is None else self.val(f, I.a)
                    if not self.do_ret(st, v): return
                    break
                if op in ("call", "invoke"):
                    r = self.do_call(st, f, I)
                    if r == "inline": break
                    if r == "stop": return
                    continue
                if op == "unreachable":
                    self.oblige(st, 0, "unreachable code (missing return / undefined behaviour) in " + f.fn.name, self.loc(I), "ub")
                    raise PathEnd()
                raise Unsupported("%s at %s" % (I.text, self.loc(I)))

    def ranges(self, X, ks, w):
        ks = sorted(set(ks)); rs = []
        for k in ks:
            if rs and rs[-1][1] + 1 == k: rs[-1][1] = k
            else: rs.append([k, k])
        ds = []
        for a, b in rs:
            if a == b: ds.append(X == a)
            else: ds.append(z3.And(z3.UGE(X, a), z3.ULE(X, b)))
        return z3.Or(*ds) if len(ds) != 1 else ds[0]

    PURE = {"icmp", "zext", "sext", "trunc", "and", "or", "xor", "select", "freeze"}
    def is_pure_test(self, fn, b):
        d = fn.__dict__.setdefault("_pure", {})
        r = d.get(b)
        if r is None:
            B = fn.blocks[b]
            r = b not in fn.headers and len(B.ins) <= 12 and B.ins[-1].op in ("br", "switch") and \
                all(I.op in self.PURE or (I.op in ("add", "sub", "lshr", "shl") and "nsw" not in I.flags and I.op in ("add", "sub")) for I in B.ins[:-1])
            d[b] = r
        return r

    def term_edges(self, f, env, I):
        """[(cond, target)] of a br/switch under env"""
        class E: pass
        if I.op == "br":
            c = I.a[0]
            if c is None: return [(1, I.a[1])]
            cv = env[c] if isinstance(c, str) and c in env else self.val(f, c)
            if isinstance(cv, int): return [(1, I.a[1] if cv & 1 else I.a[2])]
            cb = boolv(cv)
            return [(cb, I.a[1]), (z3.Not(cb), I.a[2])]
        t, c, d, cs = I.a
        cv = env[c] if isinstance(c, str) and c in env else self.val(f, c)
        if isinstance(cv, int):
            for k, l in cs:
                if (k & mask(t.w)) == cv: return [(1, l)]
            return [(1, d)]
        by = {}
        for k, l in cs:
            if l != d: by.setdefault(l, []).append(k & mask(t.w))
        X = bv(cv, t.w); r = []; allc = []
        for l, ks in by.items():
            r.append((self.ranges(X, ks, t.w), l)); allc += ks
        r.append((z3.Not(self.ranges(X, allc, t.w)) if allc else 1, d))
        return r

    def dispatch_region(self, st, f):
        """follow a conditional branch through blocks that only test values; group the exits by target and phi values"""
        fn = f.fn
        exits = {}     # key -> [conds, src, tgt, env]
        order = []
        budget = [64 if self.o.get("regions", True) else 1]
        cov = set()
        sub = f
        def go(conds, blk, env):
            I = fn.blocks[blk].ins[-1]
            for c, tgt in self.term_edges(sub, env, I):
                if not isinstance(c, int):
                    c = norm(z3.simplify(c))
                    if isinstance(c, int):
                        if not c: continue
                    else:
                        q = self.local_status(c)
                        if q == 0: continue
                        if q == 1: c = 1
                cs = conds if isinstance(c, int) else conds + (c,)
                if budget[0] > 0 and self.is_pure_test(fn, tgt) and not (tgt in fn.headers):
                    budget[0] -= 1
                    e2 = dict(env)
                    B = fn.blocks[tgt]
                    ok = True
                    save = f.env
                    f.env = {**save, **e2}
                    try:
                        pv = []
                        for P in B.phis:
                            for v, l in P.a:
                                if l == blk: pv.append((P.res, self.val(f, v))); break
                        for n, v in pv: e2[n] = v; f.env[n] = v
                        for J in B.ins[:-1]:
                            v = self.H[J.op](self, st, f, J)
                            e2[J.res] = v; f.env[J.res] = v
                    except ForkSelect: ok = False
                    finally: f.env = save
                    if ok:
                        cov.add((fn.name, tgt))
                        go(cs, tgt, e2); continue
                # exit edge
                save = f.env; f.env = {**save, **env}
                try:
                    pv = tuple(next(self.val(f, v) for v, l in P.a if l == blk) for P in fn.blocks[tgt].phis)
                finally: f.env = save
                live = fn.live[tgt]
                le = {n: v for n, v in env.items() if n in live}
                for k in exits.get(tgt, ()):
                    if same(k[3], pv) and k[4].keys() == le.keys() and all(same(k[4][n], le[n]) for n in le):
                        k[0].append(cs); break
                else:
                    x = [[cs], blk, tgt, pv, le]
                    exits.setdefault(tgt, []).append(x); order.append(x)
        go((), f.blk, {})
        self.covered |= cov
        alts = []
        for x in order:
            ds = []
            for cs in x[0]:
                if not cs: ds = None; break
                ds.append(cs[0] if len(cs) == 1 else z3.And(*cs))
            if ds is None: alts.append((1, x)); continue
            c = norm(z3.simplify(ds[0] if len(ds) == 1 else z3.Or(*ds)))
            if not isinstance(c, int) and len(ds) + len(x[0][0]) > 2:
                q = self.local_status(c)
                if q is not None: c = q
            alts.append((c, x))
        res = self.fork(st, alts)
        for s, x in res:
            try:
                g = s.frames[-1]
                g.env.update(x[4])
                g.blk = x[1]
                self.branch_to(s, x[2], x[3])
                if self.at_block(s): self.push(s)
            except PathEnd: self.stats["paths"] += 1

    def dispatch(self, alts):
        for s, tgt in alts:
            try:
                self.branch_to(s, tgt)
                f = s.frames[-1]
                if f.blk in f.fn.headers or len(f.fn.blocks[tgt].preds) > 1 or len(alts) > 1:
                    if self.at_block(s): self.push(s)
                else: self.push(s)
            except PathEnd: self.stats["paths"] += 1

    def do_ret(self, st, v):
        f = st.frames.pop()
        for oid in f.allocas:
            o = self.obj(st, oid)
            if o is not None:
                o = self.wobj(st, oid); o.freed = True; o.cells = {}; o.arr = None
        if f.kind == "pure" or not st.frames:
            st.retval = v
            self.stats["paths"] += 1
            self.ended.append((st, v))
            return False
        if f.kind == "top":
            st.retval = v; self.ended.append((st, v)); self.stats["paths"] += 1
            return False
        g = st.frames[-1].copy()
        st.frames[-1] = g
        if f.ret is not None: g.env[f.ret] = v
        return True

    def store_ty(self, st, p, t, v, I):
        loc = I
        if t.k in ("struct", "arr"):
            p = self.deref(st, p, 0, self.loc(I), "store")
            if t.k == "struct":
                for j, e in enumerate(t.el): self.store_ty(st, Ptr(p.obj, addc(p.off, field_off(t, j))), e, v[j], I)
            else:
                es = ty_size(t.el)
                for j in range(t.n): self.store_ty(st, Ptr(p.obj, addc(p.off, j * es)), t.el, v[j], I)
            return
        n = ty_size(t)
        if t.k == "int" and t.w != 8 * n and not isinstance(v, int):
            if isinstance(v, z3.BoolRef): v = bv(v, 8 * n)
            else: v = z3.ZeroExt(8 * n - t.w, v)
        self.store(st, p, n, v, self.loc(I))

    def load_ty(self, st, p, t, I):
        if t.k == "struct":
            p = self.deref(st, p, 0, self.loc(I), "load")
            return tuple(self.load_ty(st, Ptr(p.obj, addc(p.off, field_off(t, j))), e, I) for j, e in enumerate(t.el))
        if t.k in ("arr", "vec"):
            es = ty_size(t.el); p = self.deref(st, p, 0, self.loc(I), "load")
            return tuple(self.load_ty(st, Ptr(p.obj, addc(p.off, j * es)), t.el, I) for j in range(t.n))
        n = ty_size(t)
        v = self.load(st, p, n, self.loc(I))
        if t.k == "ptr":
            if isinstance(v, (Ptr, FnPtr)): return v
            return self.to_ptr(v)
        if t.k == "int":
            if isinstance(v, (Ptr, FnPtr)): return v
            if t.w != 8 * n:
                if isinstance(v, int): return v & mask(t.w)
                if t.w == 1: return norm(z3.simplify(z3.Extract(0, 0, bv(v, 8 * n)) == 1))
                return norm(z3.simplify(z3.Extract(t.w - 1, 0, bv(v, 8 * n))))
            if isinstance(v, z3.BoolRef): return bv(v, t.w)
            return v
        if isinstance(v, z3.BoolRef): return bv(v, t.w)
        return v

    # handlers of simple instructions
    def h_bin(self, st, f, I):
        w = I.ty.w
        a = self.val(f, I.a[0]); b = self.val(f, I.a[1])
        op = I.op
        if I.ty.k == "int" and w > 1:
            if self.o["check_nsw"] and "nsw" in I.flags and op in ("add", "sub", "mul"):
                self.check_nsw(st, op, w, a, b, I)
            if op in ("shl", "lshr", "ashr"):
                if isinstance(b, int):
                    if b >= w: self.fail_now(st, "shift amount in range", self.loc(I), "ub")
                else: self.oblige(st, z3.ULT(bv(b, w), w), "shift amount in range", self.loc(I), "ub")
            if op in ("udiv", "sdiv", "urem", "srem"):
                if isinstance(b, int):
                    if b == 0: self.fail_now(st, "division by zero", self.loc(I), "ub")
                else: self.oblige(st, bv(b, w) != 0, "no division by zero", self.loc(I), "ub")
        return self.binop(op, w, a, b)

    def check_nsw(self, st, op, w, a, b, I):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)): return
        sg = lambda x: x - (1 << w) if x >> (w - 1) else x
        if isinstance(a, int) and isinstance(b, int):
            x, y = sg(a), sg(b)
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            if not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                self.fail_now(st, "no signed overflow in " + op, self.loc(I), "ub")
            return
        A, B = bv(a, w), bv(b, w)
        if op == "mul":
            c = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
        else:
            X, Y = z3.SignExt(1, A), z3.SignExt(1, B)
            R = X + Y if op == "add" else X - Y
            c = z3.Extract(w, w, R) == z3.Extract(w - 1, w - 1, R)
        self.oblige(st, c, "no signed overflow in " + op, self.loc(I), "ub")

    def h_cast(self, st, f, I):
        t, a = I.a
        return self.cast(I.op, t, self.val(f, a), I.ty)
    def h_alloca(self, st, f, I):
        t, n = I.a
        sz = ty_size(t)
        if n is not None:
            k = self.val(f, n[1])
            if not isinstance(k, int): raise Unsupported("vla")
            sz *= k
        p = self.alloc(st, (I.res or "tmp") + "@" + f.fn.name, sz, kind="stack")
        f.allocas.append(p.obj)
        sc = getattr(f.fn, "_scoped", None)
        if sc is None:
            sc = f.fn._scoped = {J.a[1][1][1] for B in f.fn.blocks.values() for J in B.ins if J.op == "call" and not isinstance(J.a[0], str) and J.a[0].k == "glob" and str(J.a[0].v).startswith("@llvm.lifetime.start")}
        if I.res in sc: st.mem[p.obj].freed = True      # not in scope yet
        return p
    def h_load(self, st, f, I):
        return self.load_ty(st, self.val(f, I.a[0]), I.ty, I)
    def h_gep(self, st, f, I):
        t, ops = I.a
        if self.progress and f.fn.name in self.progress and I.res.startswith("%incdec.ptr"):
            k = ops[1][1]
            if not isinstance(k, str) and isinstance(k.v, int): f.iters["@p"] = f.iters.get("@p", 0) + (k.v if k.v < 1 << 62 else k.v - (1 << 64))
        return self.gep(t, [(ty, self.val(f, v)) for ty, v in ops])
    def h_icmp(self, st, f, I):
        p, a, b = I.a
        return self.icmp(p, I.ty.w, self.val(f, a), self.val(f, b))
    def h_fcmp(self, st, f, I):
        p, a, b = I.a
        return self.fcmp(p, I.ty.w, self.val(f, a), self.val(f, b))
    def h_select(self, st, f, I):
        c = self.val(f, I.a[0]); a = self.val(f, I.a[1]); b = self.val(f, I.a[2])
        if isinstance(c, int): return a if c & 1 else b
        if same(a, b): return a
        C = boolv(c)
        if I.ty.k == "int" and I.ty.w == 1: return norm(z3.simplify(z3.If(C, boolv(a), boolv(b))))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, z3.If(C, bv(a.off, 64), bv(b.off, 64)))
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)) or isinstance(a, tuple):
            # decide by the solver, else refuse
            r1, _ = self.sb.check(st.pc, C)
            if r1 == z3.unsat: return b
            r2, _ = self.sb.check(st.pc, z3.Not(C))
            if r2 == z3.unsat: return a
            raise ForkSelect(C)
        w = I.ty.w
        return norm(z3.simplify(z3.If(C, bv(a, w), bv(b, w))))
    def h_freeze(self, st, f, I): return self.val(f, I.a[0])
    def h_fneg(self, st, f, I):
        v = self.val(f, I.a[0]); w = I.ty.w
        return self.binop("xor", w, v, 1 << (w - 1))
    def h_extractvalue(self, st, f, I):
        v = self.val(f, I.a[0])
        for i in I.a[1]: v = v[i]
        return v
    def h_insertvalue(self, st, f, I):
        v, e, idx, _ = I.a
        v = self.val(f, v); e = self.val(f, e)
        def ins(v, idx):
            l = list(v); l[idx[0]] = e if len(idx) == 1 else ins(l[idx[0]], idx[1:]); return tuple(l)
        return ins(v, idx)

    H = {}

    # -------------------------------------------------------- calls
    def do_call(self, st, f, I):
        callee, args = I.a[0], I.a[1]
        cv = self.val(f, callee) if isinstance(callee, str) else self.const(callee)
        if not isinstance(cv, FnPtr):
            raise Unsupported("indirect call through %r at %s" % (cv, self.loc(I)))
        name = cv.name[1:]
        av = [self.val(f, v) for t, v in args]
        return self.call_named(st, f, I, name, av)

    def call_named(self, st, f, I, name, av):
        from intrin import INTRIN
        fn = self.m.funcs.get("@" + name)
        if fn is None and "@" + name in self.m.aliases:
            fn = self.m.funcs.get(self.m.aliases["@" + name].v)
        h = INTRIN.get(name)
        if h is None and name.startswith("llvm."):
            for k, hh in INTRIN.items():
                if k.endswith("*") and name.startswith(k[:-1]): h = hh; break
        if h is not None:
            r = h(self, st, f, I, av)
            if r is CALLED: return "inline"
            if r is FORKED: return "stop"
            if I.res: f.env[I.res] = r
            f.ip += 1
            if I.op == "invoke":
                self.branch_to(st, I.a[3])
                return "inline" if self.at_block(st) else "stop"
            return None
        if fn is None: raise Unsupported("call to unknown " + name)
        c = self.contracts.get(name)
        if c is not None and not self.in_own_check(st, f, name, c):
            self.used_contracts.add(name)
            fn = self.m.funcs["@" + c]
        if fn.is_decl: raise Unsupported("call to external %s at %s" % (name, self.loc(I)))
        f.ip += 1
        if I.op == "invoke": raise Unsupported("invoke")
        g = self.enter(st, fn, av, I.res, "call")
        self.covered.add((fn.name, fn.entry))
        self.begin_function(st, g)
        return "inline"

    def begin_function(self, st, g): pass

    def in_own_check(self, st, f, name, c):
        """the contract function under verification calls the real function"""
        return f.fn.name == "@" + c and len(st.frames) >= 2 and st.ghost.get("checking") == c and not any(
            fr.fn.name == "@" + c for fr in st.frames[:-1])

    # -------------------------------------------------------- pure evaluation
    def eval_pure(self, st, fname, args):
        """evaluate a side-effect-free function on the memory of st; returns a z3/int value"""
        fn = self.m.funcs["@" + fname] if not fname.startswith("@") else self.m.funcs[fname]
        saveq, saveend, savemode, savearr = self.queue, self.ended, self.mode, self.cut_arrivals
        savemerge = self.o["merge_consts"]
        self.queue = []; self.ended = []; self.mode = "pure"; self.cut_arrivals = []
        s = st.copy(); s.frames = []
        npc = len(s.pc)
        try:
            self.enter(s, fn, args, None, "pure")
            self.run(s)
            ends = self.ended
        finally:
            self.queue, self.ended, self.mode, self.cut_arrivals = saveq, saveend, savemode, savearr
            self.o["merge_consts"] = savemerge
        if not ends: raise PathEnd()
        r = None
        isb = fn.ret.k == "int" and fn.ret.w == 1
        for s2, v in reversed(ends):
            if isinstance(v, (Ptr, FnPtr)): v = simp(bv(v, 64))
            g = s2.pc[npc:]
            if r is None: r = v; continue
            if same(r, v): continue
            G = z3.And(*g) if g else z3.BoolVal(True)
            r = norm(z3.simplify(z3.If(G, boolv(v), boolv(r)))) if isb else norm(z3.simplify(z3.If(G, bv(v, fn.ret.w), bv(r, fn.ret.w))))
        return r

class StopRun(Exception): pass
class ForkSelect(Exception):
    def __init__(self, c): self.c = c
CALLED = object()
FORKED = object()

for _b in BIN: Exec.H[_b] = Exec.h_bin
for _c in CAST: Exec.H[_c] = Exec.h_cast
Exec.H.update({"alloca": Exec.h_alloca, "load": Exec.h_load, "getelementptr": Exec.h_gep, "icmp": Exec.h_icmp, "fcmp": Exec.h_fcmp,
  "select": Exec.h_select, "freeze": Exec.h_freeze, "fneg": Exec.h_fneg, "extractvalue": Exec.h_extractvalue, "insertvalue": Exec.h_insertvalue})
