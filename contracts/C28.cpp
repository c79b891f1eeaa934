// C28: comparing ops and frames
#include "vc.h"
#include "ron/text.hpp"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
static void leave(uint64_t src, uint64_t pos);
static void seat(uint64_t src, uint64_t n);
#define GHOST_LEAVE leave
#define GHOST_SEAT seat
#include "ghost.h"
#include "ron/frames.hpp"
using namespace ron;
using GC = GCursor;
// the text of a string atom is known by its identity: equal texts iff equal identities (assumed contract of ReadString)
static uint64_t text(const Atom& a) { return vc_uf2("text", a.value.as_u64, a.origin.as_u64); }
namespace ron {
template <> Result ReadString<GC>(String& to, const GC& c, Atom a) {
    vc_assert(a.type() == STRING, "only strings are read as strings");
    uint64_t t = text(a);
    to.append((const char*)&t, 8);
    return OK;
}
}
static double dbl(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static bool same_value(const Atom& x, const Atom& y) {
    if (x.type() != y.type()) return false;
    bool num = dbl(x.value.as_u64) == dbl(y.value.as_u64);
    bool it = x.value.as_u64 == y.value.as_u64, org = x.origin.as_u64 == y.origin.as_u64, txt = text(x) == text(y);
    uint64_t ty = x.type();
    return ty == INT ? it : ty == FLOAT ? num : ty == UUID ? (it && org) : txt;
}
extern "C" Status C_compare(const GC& a, const GC& b);
// frames: the monitor follows both cursors; an op other than a comment is left only when it equals the other frame's current op, one for one
static uint64_t g_n[2], g_len[2]; static bool g_pending, g_watch; static uint64_t g_who, g_match;
static bool comment(uint64_t s, uint64_t p) { return g::id_of(s, p) == Uuid::COMMENT; }
static bool equal(uint64_t pa, uint64_t pb) {
#ifdef VC_NATIVE
    GC a{0, g_len[0]}, b{1, g_len[1]}; a.n = pa + 1; b.n = pb + 1;
    return CompareOps(a, b);
#else
    return vc_uf2("equal", pa, pb) & 1;
#endif
}
extern "C" Status C_compare(const GC& a, const GC& b) {
    vc_assert(a.valid() && b.valid() && a.src != b.src, "current ops of the two frames are compared");
    Uuid u = Uuid::NIL;
    bool e = a.src == 0 ? equal(a.n - 1, b.n - 1) : equal(b.n - 1, a.n - 1);
    if (!e) u = Uuid{Word{vc_u64("why")}, Word{Word::PAYLOAD_BITS}};
    return Status{u};
}
static void leave(uint64_t s, uint64_t p) {
    if (!g_watch || comment(s, p)) return;
    if (g_pending) {
        vc_assert(s == g_who && p == g_match, "ops are matched one for one");
        g_pending = false;
    } else {
        uint64_t o = 1 - s, q = g_n[o] - 1;
        vc_assert(g_n[o] >= 1 && g_n[o] <= g_len[o] && !comment(o, q), "an op is matched with a current op that is no comment");
        vc_assert(s == 0 ? equal(p, q) : equal(q, p), "an op is passed only when the other frame's op is equal");
        g_pending = true; g_who = o; g_match = q;
    }
}
static void seat(uint64_t s, uint64_t n) { if (g_watch) g_n[s] = n; }
extern "C" bool inv_C28_watch() { return !g_pending && g_watch; }
static bool settled(uint64_t s) { return g_n[s] < 1 || g_n[s] > g_len[s] || !comment(s, g_n[s] - 1); }
extern "C" bool inv_C28_first_settled() { return settled(0); }
extern "C" bool inv_C28_second_settled() { return settled(1); }
extern "C" bool inv_C28_one_ended() { return g_n[0] > g_len[0] || g_n[1] > g_len[1]; }
PROVE(C28, frames) {
    g::reset();
#ifdef VC_NATIVE
    g::g_alike = g::g_comments = true;
#endif
    GFrame a{0, vc_native() ? vc_u8("len") % 6 : vc_u32("lena")}, b{1, vc_native() ? vc_u8("len") % 6 : vc_u32("lenb")};
    vc_assume(a.len <= (1u << 30) && b.len <= (1u << 30));
    g_n[0] = g_n[1] = 0; g_len[0] = a.len; g_len[1] = b.len; g_pending = false; g_watch = true;
    Status s = CompareFrames(a, b);
    g_watch = false;
    uint64_t p = g_n[0], q = g_n[1];
    bool va = p >= 1 && p <= a.len, vb = q >= 1 && q <= b.len;
    if (s) vc_assert((p > a.len || a.len == 0) && (q > b.len || b.len == 0) && !g_pending, "frames compare equal only when all ops of both were matched");
    else if (va && vb) vc_assert(!comment(0, p - 1) && !comment(1, q - 1) && !equal(p - 1, q - 1) || (a.len == 0) != (b.len == 0), "frames compare unequal at ops that differ");
    else vc_assert((va && (q > b.len || b.len == 0) && (!comment(0, p - 1) || b.len == 0)) || (vb && (p > a.len || a.len == 0) && (!comment(1, q - 1) || a.len == 0)), "otherwise one frame has an op more");
    if (s) vc_cover("frames equal"); else vc_cover("frames differ");
    vc_cover("frames end");
}
static GC cursor(uint64_t s) {
    GC c{s, vc_native() ? 3 : vc_u32("len")}; vc_assume(c.len <= (1u << 30));
    c.n = vc_native() ? 1 + vc_u8("n") % 3 : vc_u32("n"); vc_assume(c.n >= 1 && c.n <= c.len);
    return c;
}
static GC* g_a; static GC* g_b; static uint64_t g_j;
extern "C" bool inv_C28_prefix64(uint64_t i) {
    return i >= 2 && (g_j < 2 || g_j >= i || same_value(g::atom_of(0, g_a->n - 1, g_j), g::atom_of(1, g_b->n - 1, g_j)));
}
extern "C" bool inv_C28_prefix(uint32_t i) { return inv_C28_prefix64(i); }
PROVE(C28, ops) {
    g::reset();
    GC a = cursor(0), b = cursor(1);
    g_a = &a; g_b = &b; g_j = vc_any("j");
    uint64_t na = g::size_of(0, a.n - 1), nb = g::size_of(1, b.n - 1);
    uint64_t k = vc_native() ? 2 + vc_u8("k") % 3 : vc_u32("k"); vc_assume(k >= 2 && k < na);
    Status s = CompareOps(a, b);
    bool ids = a.id() == b.id(), refs = a.ref() == b.ref();
    vc_assert((s == Status::BADID) == !ids, "ops with different ids compare as BADID");
    if (ids) vc_assert((s == Status::BADREF) == !refs, "ops with different references compare as BADREF");
    if (ids && refs) {
        vc_assert(s == Status::OK || s == Status::BADVALUE, "ops with the same id and reference compare by value");
        if (na != nb) vc_assert(s == Status::BADVALUE, "ops with different numbers of values differ");
        else if (s == Status::OK) vc_assert(same_value(g::atom_of(0, a.n - 1, k), g::atom_of(1, b.n - 1, k)), "ops that compare equal have equal values");
    }
    vc_cover("ops end");
}
PROVE(C28, ops_differ) {
    g::reset();
    GC a = cursor(0), b = cursor(1);
    g_a = &a; g_b = &b; g_j = vc_any("j");
    uint64_t na = g::size_of(0, a.n - 1);
    uint64_t k = vc_any("k");
    vc_assume(a.id() == b.id() && a.ref() == b.ref() && na == g::size_of(1, b.n - 1));
    if (vc_native()) for (uint64_t i = 2; i < na; ++i) vc_assume(same_value(g::atom_of(0, a.n - 1, i), g::atom_of(1, b.n - 1, i)));
    vc_forall(k < 2 || k >= na || same_value(g::atom_of(0, a.n - 1, k), g::atom_of(1, b.n - 1, k)));
    vc_assert(CompareOps(a, b) == Status::OK, "ops with equal ids, references and values compare equal");
    vc_cover("ops_differ end");
}
