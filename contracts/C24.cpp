// C24: splitting a log into chains
#include "vc.h"
#include "ron/text.hpp"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
#include "ron/form.hpp"
#include "ron/frames.hpp"
namespace ron {
static uint64_t g_len; static uint32_t g_err;      // ops of the log; what its end looks like
static uint64_t g_cur;                             // ops consumed by the scanning cursor
static Uuid g_cutoff; static bool g_cutoff_on;
#ifdef VC_NATIVE
static uint64_t g_f[64];
static Uuid id_of(uint64_t p) { return Uuid{Word{1 + p % 50}, Word{(g_f[p % 64] >> 4 & 1)}}; }
static Uuid ref_of(uint64_t p) { uint64_t r = g_f[p % 64] % 16; return p && r < 10 ? id_of(p - 1) : id_of(r); }
#else
static Uuid id_of(uint64_t p) { return Uuid{Word{vc_uf1("idv", p)}, Word{vc_uf1("ido", p)}}; }
static Uuid ref_of(uint64_t p) { return Uuid{Word{vc_uf1("refv", p)}, Word{vc_uf1("refo", p)}}; }
#endif
// a cursor by contract: n ops consumed, the current one is n-1; the data of an op ends at n
struct LCursor {
    uint64_t n, len;
    struct Data {
        LCursor* c;
        struct R { fsize_t b; fsize_t begin() const { return b; } };
        R range() const { return R{fsize_t(c->n)}; }
        void EndAt(fsize_t at) { vc_assert(at >= c->n && at <= c->len, "a cursor's data is cut within what it holds"); c->len = at; }
    };
    bool valid() const { return n >= 1 && n <= len; }
    Status Next() {
        if (n <= len) ++n;
        g_cur = n;
        if (n <= len) return Status::OK;
        if (g_err) return Status::BADSYNTAX;
        return Status::ENDOFFRAME;
    }
    const Uuid id() const { vc_assert(valid(), "an id is read of a current op"); return id_of(n - 1); }
    const Uuid ref() const { vc_assert(valid(), "a ref is read of a current op"); return ref_of(n - 1); }
    Data data() { return Data{this}; }
    using Comparator = bool (*)(const LCursor& a, const LCursor& b);
};
static uint64_t g_w;                               // an arbitrary op
static uint64_t g_count, g_end;                    // chains so far, where they end
static bool solid(uint64_t from, uint64_t to) { return !((g_w >= from) & (g_w < to)) || ref_of(g_w) == id_of(g_w - 1); }   // ops of a chain but its first, at from-1
static bool before_cutoff(uint64_t to) { return !(g_w + 1 < to) || id_of(g_w) != g_cutoff; }
// the list of chains: each is checked as it is added
struct LChains {
    void push_back(const LCursor& c) {
        vc_assert(c.n == g_end + 1, "a chain starts where the one before it ends, the first one at the start of the log");
        vc_assert(c.valid() && c.len <= g_len, "a chain is not empty and its cursor is at its first op");
        vc_assert(solid(c.n, c.len), "within a chain every op refers to the previous one");
        vc_assert(g_count == 0 || ref_of(c.n - 1) != id_of(c.n - 2), "a chain is not broken where the next op refers to its last one");
        vc_assert(before_cutoff(c.len), "no chain goes past the cutoff op");
        ++g_count; g_end = c.len;
    }
    bool empty() const { return g_count == 0; }
    LCursor operator[](size_t) const { return LCursor{1, g_len}; }
    size_t size() const { return g_count; }
};
struct LFrame {
    using Cursor = LCursor; using Cursors = LChains;
    struct Builder {};
    LCursor cursor() const { return LCursor{0, g_len}; }
};
}
#include "rdt/rdt.hpp"
namespace ron {
#ifndef VC_NATIVE
extern "C" bool inv_C24_cutoff() { return before_cutoff(g_end); }
extern "C" bool inv_C24_cutoff_cur() { return before_cutoff(g_cur); }
extern "C" bool inv_C24_ends() { return g_cur > g_len ? g_end == g_len : g_end + 1 == g_cur; }
extern "C" bool inv_C24_ends_less() { return g_end + 1 <= g_cur && g_cur <= g_len; }
extern "C" bool inv_C24_g_cur() { return g_cur >= 1 && g_cur <= g_len + 1; }
extern "C" bool inv_C24_count() { return g_count <= g_end; }
extern "C" bool inv_C24_some() { return g_count > 0 || (g_cur == 1 && g_end == 0); }
extern "C" bool inv_C24_none() { return (g_count == 0) == (g_end == 0); }
extern "C" bool inv_C24_solid_cur() { return solid(g_end + 1, g_cur); }
extern "C" bool invobj16_C24_cur(LCursor* c) { return c->n == g_cur && c->len == g_len; }
extern "C" bool invobj16_C24_nxt(LCursor* c) { return c->n == g_end + 1 && c->len == g_len; }
extern "C" bool invobj16_C24_nxt_done(LCursor* c) { return g_cur > g_len || (c->n == g_end + 1 && c->len == g_len); }
extern "C" bool invobj16_C24_prev_cut(Uuid* u) { return g_count == 0 || g_cur > g_len || ref_of(g_end) != id_of(g_end - 1) || *u == g_cutoff; }
extern "C" bool inv_C24_broken() { return g_count == 0 || ref_of(g_end) != id_of(g_end - 1); }
extern "C" bool invobj16_C24_prev(Uuid* u) { return g_cur < 2 || *u == id_of(g_cur - 2); }
extern "C" bool invobj16_C24_not_cutoff(Uuid* u) { return g_cur >= 2 || *u != g_cutoff; }
extern "C" bool invobj16_C24_prev_end(Uuid* u) { return g_end == 0 || *u == id_of(g_end - 1); }
extern "C" bool invobj32_C24_ok(Status* ok) { return g_count == 0 || (g_cur <= g_len ? ok->code() == Status::OK.code() : ok->code() == (g_err ? Status::BADSYNTAX.code() : Status::ENDOFFRAME.code())); }
extern "C" bool invobj40_C24_ok(Status* ok) { return g_count == 0 || (g_cur <= g_len ? ok->code() == Status::OK.code() : ok->code() == (g_err ? Status::BADSYNTAX.code() : Status::ENDOFFRAME.code())); }
#endif
PROVE(C24, split) {
    g_len = vc_native() ? vc_u8("len") % 20 : vc_u32("len"); vc_assume(g_len <= (1u << 30));
    g_err = vc_bool("err");
#ifdef VC_NATIVE
    for (int i = 0; i < 64; ++i) g_f[i] = vc_u8("op");
#endif
    g_cutoff = vc_native() ? id_of(vc_u8("cut") % 40) : Uuid{Word{vc_u64("cv")}, Word{vc_u64("co")}};
    g_w = vc_native() ? vc_u8("w") % 20 : vc_u32("w");
    Uuid nil{}; vc_assume(g_cutoff != nil);
    g_count = g_end = g_cur = 0;
    LChains chains;
    Status ok = SplitLogIntoChains<LFrame>(chains, LFrame{}, g_cutoff);
    vc_assert(g_err || ok == Status::OK, "a well-formed log is split");
    if (g_len > 0) {
        vc_assert(g_end == g_len || (g_end > 0 && id_of(g_end - 1) == g_cutoff), "the chains reach the end of the log or the cutoff op");
        vc_assert(!g_err || ok != Status::OK || id_of(g_end - 1) == g_cutoff, "a syntax error after the first op is reported");
    } else vc_assert(g_count == 0, "a log without ops has no chains");
    vc_cover("split end");
}
}
