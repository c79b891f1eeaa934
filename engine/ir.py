"""Parser for the textual LLVM 18 IR subset emitted by clang (opaque pointers)."""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "n", "el", "name", "packed", "_size", "_align")
    def __init__(self, k, w=0, n=0, el=None, name=None, packed=False):
        self.k, self.w, self.n, self.el, self.name, self.packed = k, w, n, el, name, packed
        self._size = self._align = None
    def __repr__(self):
        if self.k == "int": return "i%d" % self.w
        if self.k == "arr": return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct": return self.name or "{%s}" % ",".join(map(repr, self.el or []))
        return self.k

VOID, PTR, LABEL, METADATA = Ty("void"), Ty("ptr", 64), Ty("label"), Ty("metadata")
FLOAT, DOUBLE = Ty("fp", 32), Ty("fp", 64)
X86FP = Ty("fp", 80)
_ints = {}
def INT(w):
    if w not in _ints: _ints[w] = Ty("int", w)
    return _ints[w]

def ty_align(t):
    if t._align is None:
        if t.k == "int": a = min(8, max(1, (t.w + 7) // 8)); a = 1 << (a - 1).bit_length()
        elif t.k == "ptr": a = 8
        elif t.k == "fp": a = 16 if t.w == 80 else t.w // 8
        elif t.k in ("arr", "vec"): a = ty_align(t.el)
        elif t.k == "struct": a = 1 if t.packed else max([ty_align(e) for e in t.el] or [1])
        else: a = 1
        t._align = a
    return t._align

def ty_size(t):
    if t._size is None:
        if t.k == "int": s = (t.w + 7) // 8; s = 1 << (s - 1).bit_length() if s else 1
        elif t.k == "ptr": s = 8
        elif t.k == "fp": s = 16 if t.w == 80 else t.w // 8
        elif t.k in ("arr", "vec"): s = t.n * ty_size(t.el)
        elif t.k == "struct":
            o = 0
            for e in t.el:
                if not t.packed: o = -(-o // ty_align(e)) * ty_align(e)
                o += ty_size(e)
            if not t.packed: o = -(-o // ty_align(t)) * ty_align(t)
            s = o
        else: raise Exception("size of %r" % t)
        t._size = s
    return t._size

def field_off(t, i):
    o = 0
    for j, e in enumerate(t.el):
        if not t.packed: o = -(-o // ty_align(e)) * ty_align(e)
        if j == i: return o
        o += ty_size(e)
    raise Exception("field")

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<name>[%@$](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#\d+)
  | (?P<fp>[-+]?\d+\.\d*(?:[eE][-+]?\d+)?)
  | (?P<num>-?\d+)
  | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
  | (?P<dots>\.\.\.)
  | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)
  | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in " \t\n": i += 1; continue
        if c == ";": break
        m = TOK.match(s, i)
        if not m: raise Exception("tokenize: %r" % s[i:i+60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

def unq(n):
    """strip sigil and quotes of a %name / @name token"""
    if n[1:2] == '"': return n[0] + n[2:-1]
    return n

PARAM_ATTRS = {"noundef","nonnull","noalias","nocapture","readonly","readnone","writeonly","zeroext","signext",
  "returned","nest","swiftself","immarg","inreg","allocptr","noreturn","nounwind","dead_on_unwind","writable","initializes","allocalign","nofree"}
PARAM_ATTRS_ARG = {"align","dereferenceable","dereferenceable_or_null","sret","byval","byref","preallocated","inalloca","elementtype","range","captures","memory","nofpclass"}

class Const:  # constant operand / initializer
    __slots__ = ("k", "ty", "v")
    def __init__(self, k, ty, v): self.k, self.ty, self.v = k, ty, v
    def __repr__(self): return "Const(%s,%r,%r)" % (self.k, self.ty, self.v)

class Instr:
    __slots__ = ("op", "res", "ty", "a", "flags", "line", "text", "md")
    def __init__(self, op, res=None, ty=None, a=None, flags=()):
        self.op, self.res, self.ty, self.a, self.flags = op, res, ty, a, flags
        self.line = None; self.text = ""; self.md = None
    def __repr__(self): return self.text

class Block:
    __slots__ = ("name", "phis", "ins", "preds", "succs", "fn", "rpo", "livein", "key")
    def __init__(self, name): self.name = name; self.phis = []; self.ins = []; self.preds = []; self.succs = []

class Func:
    def __init__(self, name, ret, params, vararg):
        self.name, self.ret, self.params, self.vararg = name, ret, params, vararg
        self.blocks = {}; self.order = []; self.entry = None; self.sub = None; self.attrs = ""
    @property
    def is_decl(self): return not self.blocks

class Module:
    def __init__(self):
        self.types = {}; self.globals = {}; self.funcs = {}; self.md = {}; self.aliases = {}; self.attrs = {}

class P:
    def __init__(self, toks, mod): self.t, self.i, self.m = toks, 0, mod
    def peek(self, o=0): return self.t[self.i + o] if self.i + o < len(self.t) else ("eof", "")
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def eat(self, v):
        if self.peek()[1] == v and self.peek()[0] in ("p", "word", "dots"): self.i += 1; return True
        return False
    def expect(self, v):
        x = self.next()
        if x[1] != v: raise Exception("expected %r got %r near %r" % (v, x, self.t[max(0,self.i-8):self.i+5]))
    # types
    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "void": t = VOID
            elif v == "ptr":
                t = PTR
                if self.peek()[1] == "addrspace": self.next(); self.expect("("); self.next(); self.expect(")")
            elif re.fullmatch(r"i\d+", v): t = INT(int(v[1:]))
            elif v == "float": t = FLOAT
            elif v == "double": t = DOUBLE
            elif v == "x86_fp80": t = X86FP
            elif v == "label": t = LABEL
            elif v == "metadata": t = METADATA
            elif v == "opaque": t = Ty("struct", el=[])
            else: raise Exception("type %r" % v)
        elif k == "name":
            nm = unq(v)
            if nm not in self.m.types: self.m.types[nm] = Ty("struct", name=nm)
            t = self.m.types[nm]
        elif v == "[":
            n = int(self.next()[1]); self.expect("x"); e = self.type(); self.expect("]"); t = Ty("arr", n=n, el=e)
        elif v == "{":
            t = Ty("struct", el=self._tlist("}"))
        elif v == "<":
            if self.eat("{"):
                t = Ty("struct", el=self._tlist("}"), packed=True); self.expect(">")
            else:
                n = int(self.next()[1]); self.expect("x"); e = self.type(); self.expect(">"); t = Ty("vec", n=n, el=e)
        else: raise Exception("type at %r" % (v,))
        while self.peek()[1] == "(" and self.peek()[0] == "p" and self._is_fnty():
            self.next(); self._skip_to_close(); t = Ty("fn", el=t)
        return t
    def _is_fnty(self):
        # "ret (args...)" function type appears before a callee name in calls to varargs
        d = 0
        j = self.i
        while j < len(self.t):
            v = self.t[j][1]
            if v == "(": d += 1
            elif v == ")":
                d -= 1
                if d == 0: break
            j += 1
        nxt = self.t[j+1] if j + 1 < len(self.t) else ("eof", "")
        return nxt[0] == "name"
    def _skip_to_close(self):
        d = 1
        while d:
            v = self.next()[1]
            if v == "(": d += 1
            elif v == ")": d -= 1
    def _tlist(self, close):
        r = []
        if self.eat(close): return r
        while True:
            r.append(self.type())
            if self.eat(close): return r
            self.expect(",")
    def param_attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v in PARAM_ATTRS: self.next()
            elif k == "word" and v in PARAM_ATTRS_ARG:
                self.next()
                if self.peek()[1] == "(":
                    self.next(); self._skip_to_close()
                elif v == "align": self.next()
            elif k == "str": 
                self.next()
                if self.eat("="): self.next()
            else: return
    # values
    def value(self, ty):
        k, v = self.next()
        if k == "name":
            nm = unq(v)
            if nm[0] == "%": return nm
            return Const("glob", PTR, nm)
        if k == "num": return Const("int", ty, int(v)) if ty.k != "fp" else Const("fpdec", ty, v)
        if k == "fp": return Const("fpdec", ty, v)
        if k == "hex": return Const("fphex", ty, v)
        if k == "str":
            return Const("str", ty, cstr(v))
        if k == "word":
            if v == "true": return Const("int", ty, 1)
            if v == "false": return Const("int", ty, 0)
            if v == "null": return Const("null", ty, 0)
            if v in ("undef", "poison"): return Const("undef", ty, None)
            if v == "zeroinitializer": return Const("zero", ty, None)
            if v == "none": return Const("zero", ty, None)
            if v == "getelementptr":
                fl = []
                while self.peek()[0] == "word" and self.peek()[1] in ("inbounds", "inrange"): fl.append(self.next()[1])
                self.expect("("); t = self.type(); self.expect(",")
                ops = self.tvlist(")")
                return Const("gep", ty, (t, ops))
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
                self.expect("("); t = self.type(); x = self.value(t); self.expect("to"); t2 = self.type(); self.expect(")")
                return Const("cast", ty, (v, t, x, t2))
            if v in ("sub", "add", "mul", "and", "or", "xor", "shl"):
                while self.peek()[1] in ("nuw", "nsw"): self.next()
                self.expect("("); t = self.type(); x = self.value(t); self.expect(","); t2 = self.type(); y = self.value(t2); self.expect(")")
                return Const("bin", ty, (v, x, y))
            raise Exception("value word %r" % v)
        if v == "{" or v == "[":
            close = "}" if v == "{" else "]"
            return Const("agg", ty, [x for _, x in self.tvlist(close)])
        if v == "<":
            if self.eat("{"):
                r = Const("agg", ty, [x for _, x in self.tvlist("}")]); self.expect(">"); return r
            return Const("agg", ty, [x for _, x in self.tvlist(">")])
        raise Exception("value %r" % ((k, v),))
    def tvlist(self, close):
        r = []
        if self.eat(close): return r
        while True:
            t = self.type()
            self.param_attrs()
            r.append((t, self.value(t)))
            if self.eat(close): return r
            self.expect(",")
    def tv(self):
        t = self.type(); self.param_attrs(); return t, self.value(t)

def cstr(v):
    s = v[2:-1] if v[0] == "c" else v[1:-1]
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i+1] == "\\": out.append(0x5c); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode(); i += 1
    return bytes(out)

LINKAGE = {"private","internal","available_externally","linkonce","weak","common","appending","extern_weak","linkonce_odr",
  "weak_odr","external","dso_local","dso_preemptable","default","hidden","protected","dllimport","dllexport","unnamed_addr",
  "local_unnamed_addr","externally_initialized","thread_local","comdat","fastcc","ccc","coldcc"}
BIN = {"add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","fadd","fsub","fmul","fdiv","frem"}
CAST = {"trunc","zext","sext","fptrunc","fpext","fptoui","fptosi","uitofp","sitofp","ptrtoint","inttoptr","bitcast","addrspacecast"}
FLAGS = {"nuw","nsw","exact","inbounds","fast","nnan","ninf","nsz","arcp","contract","afn","reassoc","disjoint","nneg","volatile","atomic","tail","musttail","notail"}

def parse_module(path):
    m = Module()
    lines = open(path, encoding="utf-8", errors="surrogateescape").read().split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i]; i += 1
        if not ln or ln[0] == ";": continue
        if ln.startswith("%") :
            mm = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)', ln)
            nm = unq(mm.group(1))
            if nm not in m.types: m.types[nm] = Ty("struct", name=nm)
            if mm.group(2).strip() == "opaque": m.types[nm].el = []; continue
            t = P(tokenize(mm.group(2)), m).type()
            m.types[nm].el = t.el; m.types[nm].packed = t.packed
        elif ln.startswith("@"):
            parse_global(ln, m)
        elif ln.startswith("declare"):
            f = parse_header(ln, m); m.funcs[f.name] = f
        elif ln.startswith("define"):
            body = []
            while not lines[i].startswith("}"): body.append(lines[i]); i += 1
            i += 1
            f = parse_header(ln, m)
            parse_body(f, body, m)
            m.funcs[f.name] = f
        elif ln.startswith("!"):
            mm = re.match(r"!(\d+) = (?:distinct )?(.*)", ln)
            if mm: m.md[int(mm.group(1))] = mm.group(2)
        elif ln.startswith("attributes"):
            mm = re.match(r"attributes #(\d+) = \{(.*)\}", ln)
            if mm: m.attrs[mm.group(1)] = mm.group(2)
    return m

def parse_global(ln, m):
    p = P(tokenize(ln), m)
    nm = unq(p.next()[1]); p.expect("=")
    kind = None; ext = False
    while True:
        k, v = p.peek()
        if v in ("external", "extern_weak"): ext = True
        if v in ("global", "constant"): kind = v; p.next(); break
        if v == "alias":
            mm = re.search(r",\s*ptr (@[^\s,]+|@\"[^\"]*\")\s*$", ln)
            m.aliases[nm] = Const("glob", Ty("ptr"), unq(mm.group(1))); return
        if v == "thread_local" and p.peek(1)[1] == "(": p.next(); p.next(); p._skip_to_close(); continue
        if v == "addrspace": p.next(); p.next(); p._skip_to_close(); continue
        if v == "ifunc": return
        p.next()
    t = p.type()
    init = None
    if not ext: init = p.value(t)
    m.globals[nm] = (t, init, kind == "constant")

def parse_header(ln, m):
    p = P(tokenize(ln.rstrip("{ ")), m)
    p.next()
    while True:
        k, v = p.peek()
        if v.startswith("!"): p.next(); p.next(); continue
        if k == "word" and (v in LINKAGE or v in PARAM_ATTRS): p.next(); continue
        if k == "word" and v in PARAM_ATTRS_ARG: p.param_attrs(); continue
        break
    ret = p.type()
    nm = unq(p.next()[1])
    p.expect("(")
    params = []; vararg = False; cnt = 0
    if not p.eat(")"):
        while True:
            if p.peek()[0] == "dots": p.next(); vararg = True; p.expect(")"); break
            t = p.type(); 
            sret = any(x[1] in ("byval",) for x in p.t[p.i:p.i+1])
            p.param_attrs()
            if p.peek()[0] == "name": pn = unq(p.next()[1])
            else: pn = "%" + str(cnt)
            if pn[1:].isdigit(): cnt = int(pn[1:]) + 1
            params.append((t, pn))
            if p.eat(")"): break
            p.expect(",")
    f = Func(nm, ret, params, vararg)
    mm = re.search(r"!dbg !(\d+)", ln)
    if mm: f.sub = int(mm.group(1))
    f.attrs = " ".join(re.findall(r"#(\d+)", ln))
    return f

def parse_body(f, body, m):
    cur = None
    i = 0
    unnamed = None
    while i < len(body):
        ln = body[i]; i += 1
        s = ln.strip()
        if not s or s[0] == ";": continue
        mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):', ln)
        if mm:
            nm = mm.group(1)
            if nm[0] == '"': nm = nm[1:-1]
            cur = Block("%" + nm); f.blocks[cur.name] = cur; f.order.append(cur.name); continue
        if cur is None:
            # implicit entry label: number after params
            n = 0
            for _, pn in f.params:
                if pn[1:].isdigit(): n = max(n, int(pn[1:]) + 1)
            cur = Block("%" + str(n)); f.blocks[cur.name] = cur; f.order.append(cur.name)
        if " switch " in ln and s.endswith("["):
            while not body[i].strip().startswith("]"): s += " " + body[i].strip(); i += 1
            s += " " + body[i].strip(); i += 1
        if re.match(r"(%\S+ = )?(invoke|landingpad)", s):
            while i < len(body) and body[i].startswith("          "): s += " " + body[i].strip(); i += 1
        ins = parse_instr(s, m)
        if ins is None: continue
        if ins.op == "phi": cur.phis.append(ins)
        else: cur.ins.append(ins)
    f.entry = f.order[0]
    for b in f.blocks.values():
        t = b.ins[-1]
        b.succs = list(dict.fromkeys(succs_of(t)))
    for b in f.blocks.values():
        for s in b.succs: f.blocks[s].preds.append(b.name)
        b.fn = f

def succs_of(t):
    if t.op == "br": return t.a[1:] if t.a[0] is not None else t.a[1:2]
    if t.op == "switch": return [t.a[2]] + [l for _, l in t.a[3]]
    if t.op == "invoke": return [t.a[3]]
    return []

def parse_instr(s, m):
    txt = s
    md = None
    mm = re.search(r", !dbg !(\d+)", s)
    if mm: md = int(mm.group(1))
    # drop trailing metadata
    cut = re.search(r",\s*!\w+", s)
    q = s
    if cut and '"' not in s[:cut.start()]: q = s[:cut.start()]
    elif cut: q = re.sub(r"(,\s*![\w.]+ !\d+)+\s*$", "", s)
    p = P(tokenize(q), m)
    res = None
    if p.peek()[0] == "name" and p.peek(1)[1] == "=":
        res = unq(p.next()[1]); p.next()
    k, op = p.next()
    flags = []
    if op in ("tail", "musttail", "notail"): k, op = p.next()
    while p.peek()[0] == "word" and p.peek()[1] in FLAGS: flags.append(p.next()[1])
    I = None
    if op in BIN:
        t = p.type(); a = p.value(t); p.expect(","); b = p.value(t); I = Instr(op, res, t, (a, b), flags)
    elif op in CAST:
        t = p.type(); a = p.value(t); p.expect("to"); t2 = p.type(); I = Instr(op, res, t2, (t, a), flags)
    elif op == "alloca":
        t = p.type(); n = None
        while p.eat(","):
            if p.peek()[1] == "align": p.next(); p.next()
            elif p.peek()[1] == "addrspace": break
            else: n = p.tv()
        I = Instr(op, res, PTR, (t, n), flags)
    elif op == "load":
        t = p.type(); p.expect(","); _, a = p.tv(); I = Instr(op, res, t, (a,), flags)
    elif op == "store":
        t, v = p.tv(); p.expect(","); _, a = p.tv(); I = Instr(op, None, t, (v, a), flags)
    elif op == "getelementptr":
        t = p.type(); p.expect(",")
        ops = []
        while True:
            ops.append(p.tv())
            if not p.eat(","): break
        I = Instr(op, res, PTR, (t, ops), flags)
    elif op in ("icmp", "fcmp"):
        pred = p.next()[1]
        t = p.type(); a = p.value(t); p.expect(","); b = p.value(t); I = Instr(op, res, t, (pred, a, b), flags)
    elif op == "br":
        if p.peek()[1] == "label": p.next(); l = unq(p.next()[1]); I = Instr("br", None, None, [None, l])
        else:
            t, c = p.tv(); p.expect(","); p.next(); l1 = unq(p.next()[1]); p.expect(","); p.next(); l2 = unq(p.next()[1])
            I = Instr("br", None, None, [c, l1, l2])
    elif op == "switch":
        t, c = p.tv(); p.expect(","); p.next(); d = unq(p.next()[1]); p.expect("[")
        cs = []
        while not p.eat("]"):
            t2, v = p.tv(); p.expect(","); p.next(); cs.append((v.v, unq(p.next()[1])))
        I = Instr("switch", None, t, (t, c, d, cs))
    elif op == "phi":
        t = p.type(); inc = []
        while True:
            p.expect("["); v = p.value(t); p.expect(","); l = unq(p.next()[1]); p.expect("]"); inc.append((v, l))
            if not p.eat(","): break
        I = Instr("phi", res, t, inc)
    elif op == "select":
        _, c = p.tv(); p.expect(","); t, a = p.tv(); p.expect(","); _, b = p.tv(); I = Instr(op, res, t, (c, a, b), flags)
    elif op == "ret":
        if p.peek()[1] == "void": I = Instr("ret", None, VOID, None)
        else: t, v = p.tv(); I = Instr("ret", None, t, v)
    elif op in ("call", "invoke"):
        while p.peek()[0] == "word" and (p.peek()[1] in LINKAGE or p.peek()[1] in PARAM_ATTRS): p.next()
        p.param_attrs()
        while p.peek()[0] == "word" and p.peek()[1] in FLAGS: p.next()
        t = p.type()
        if t.k == "fn": t = t.el
        callee = p.value(PTR)
        p.expect("(")
        args = []
        if not p.eat(")"):
            while True:
                at = p.type()
                if at.k == "metadata":
                    return None  # dbg intrinsics
                p.param_attrs(); args.append((at, p.value(at)))
                if p.eat(")"): break
                p.expect(",")
        if op == "invoke":
            while p.peek()[1] != "to": p.next()
            p.next(); p.next(); l = unq(p.next()[1])
            I = Instr("invoke", res, t, (callee, args, None, l))
        else: I = Instr("call", res, t, (callee, args))
    elif op == "extractvalue":
        t, v = p.tv(); idx = []
        while p.eat(","): idx.append(int(p.next()[1]))
        I = Instr(op, res, t, (v, idx))
    elif op == "insertvalue":
        t, v = p.tv(); p.expect(","); t2, e = p.tv(); idx = []
        while p.eat(","): idx.append(int(p.next()[1]))
        I = Instr(op, res, t, (v, e, idx, t2))
    elif op == "freeze":
        t, v = p.tv(); I = Instr(op, res, t, (v,))
    elif op == "fneg":
        t, v = p.tv(); I = Instr(op, res, t, (v,))
    elif op == "unreachable": I = Instr(op)
    elif op in ("resume", "landingpad"): I = Instr("unreachable")
    elif op in ("atomicrmw", "cmpxchg", "fence", "va_arg", "insertelement", "extractelement", "shufflevector"):
        I = Instr("unsupported_" + op, res)
    else: raise Exception("instr %r in %r" % (op, txt))
    I.text = txt; I.md = md
    return I

def dbg_loc(m, n):
    s = m.md.get(n, "")
    mm = re.search(r"line: (\d+)", s); ln = int(mm.group(1)) if mm else 0
    f = None
    seen = 0
    sc = re.search(r"scope: !(\d+)", s)
    while sc and seen < 30:
        seen += 1
        d = m.md.get(int(sc.group(1)), "")
        fm = re.search(r"file: !(\d+)", d)
        if fm:
            fd = m.md.get(int(fm.group(1)), "")
            mm = re.search(r'filename: "([^"]*)"', fd)
            if mm: f = mm.group(1); break
        sc = re.search(r"scope: !(\d+)", d)
    return "%s:%d" % (f or "?", ln)

# ---------------------------------------------------------------- analyses
def operands(I):
    r = []
    def add(x):
        if isinstance(x, str) and x[0] == "%": r.append(x)
    op = I.op
    if op in BIN: add(I.a[0]); add(I.a[1])
    elif op in CAST: add(I.a[1])
    elif op == "alloca":
        if I.a[1]: add(I.a[1][1])
    elif op in ("load", "freeze", "fneg"): add(I.a[0])
    elif op == "store": add(I.a[0]); add(I.a[1])
    elif op == "getelementptr":
        for _, v in I.a[1]: add(v)
    elif op in ("icmp", "fcmp"): add(I.a[1]); add(I.a[2])
    elif op == "br": add(I.a[0])
    elif op == "switch": add(I.a[1])
    elif op == "select":
        for v in I.a: add(v)
    elif op == "ret":
        if I.a is not None: add(I.a)
    elif op in ("call", "invoke"):
        add(I.a[0])
        for _, v in I.a[1]: add(v)
    elif op == "extractvalue": add(I.a[0])
    elif op == "insertvalue": add(I.a[0]); add(I.a[1])
    return r

def analyze(f):
    """rpo numbers, liveness (live-in sets excluding phi results), loop info."""
    if getattr(f, "_done", False): return
    f._done = True
    seen = {}; post = []
    st = [(f.entry, iter(f.blocks[f.entry].succs))]; seen[f.entry] = 1
    back = set()
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen[s] = 1; st.append((s, iter(f.blocks[s].succs))); break
            elif seen[s] == 1: back.add((b, s))
        else:
            seen[b] = 2; post.append(b); st.pop()
    rpo = {b: i for i, b in enumerate(reversed(post))}
    f.rpo = rpo
    f.back = back
    f.headers = {h for _, h in back}
    # natural loop bodies
    f.loops = {}
    for t, h in back:
        body = f.loops.setdefault(h, {h})
        wl = [t]
        while wl:
            x = wl.pop()
            if x in body: continue
            body.add(x)
            wl += [q for q in f.blocks[x].preds if q in rpo]
    # liveness
    use = {}; dfn = {}
    for b in rpo:
        B = f.blocks[b]; u = set(); d = set(i.res for i in B.phis)
        for I in B.ins:
            for o in operands(I):
                if o not in d: u.add(o)
            if I.res: d.add(I.res)
        use[b], dfn[b] = u, d
    live = {b: set() for b in rpo}
    ch = True
    order = sorted(rpo, key=lambda b: -rpo[b])
    while ch:
        ch = False
        for b in order:
            B = f.blocks[b]
            out = set()
            for s in B.succs:
                out |= live[s]
                for ph in f.blocks[s].phis:
                    for v, l in ph.a:
                        if l == b and isinstance(v, str): out.add(v)
            new = use[b] | (out - dfn[b])
            if new != live[b]: live[b] = new; ch = True
    f.live = live
    # live incl. phi results at block start
    # loop nesting keys
    f.nest = {}
    hs = sorted(f.headers, key=lambda h: rpo[h])
    for b in rpo:
        f.nest[b] = [h for h in hs if b in f.loops[h]]
