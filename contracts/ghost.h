// A frame known only by its contract: each source is a sequence of ops; the templates of ron/, rdt/ and db/ are verified over it.
// The contract assumed of a frame's cursor: Next() moves to the next op of the sequence, OK iff there is one; valid() tells whether there is
// a current op; id(), ref(), term(), op().size() and atom(i) are fixed for each op of the source.
#ifndef GHOST_H
#define GHOST_H
#include "ron/uuid.hpp"
#include "ron/status.hpp"
#include "ron/op.hpp"
#ifdef VC_NATIVE
#include <map>
#endif
namespace ron {
namespace g {
#ifdef VC_NATIVE
struct OpRec { uint64_t f[24]; };
static std::map<std::pair<uint64_t, uint64_t>, OpRec> g_ops;
static bool g_alike, g_comments;   // ops that are often equal; comments among the ops
// small domains, so that a random search meets equal and adjacent values
static uint64_t rec(uint64_t s, uint64_t p, int k) {
    auto i = g_ops.find({s, p});
    if (i == g_ops.end()) {
        OpRec r;
        for (int j = 0; j < 24; ++j) { r.f[j] = vc_u8("op"); if (g_alike && j < 23) r.f[j] &= vc_u8("op") & vc_u8("op") & vc_u8("op"); }
        i = g_ops.emplace(std::make_pair(s, p), r).first;
    }
    return i->second.f[k];
}
static void reset() { g_ops.clear(); }
static Uuid small(uint64_t v, uint64_t o) { return Uuid{Word{(v & 7) << 30 | (v & 64 ? uint64_t(1) << 60 : 0)}, Word{(o & 1) << 30 | (o & 2 ? 0 : uint64_t(2) << 60)}}; }
static Uuid id_of(uint64_t s, uint64_t p) { if (g_comments && rec(s, p, 23) < 96) return Uuid::COMMENT; return small(rec(s, p, 0), rec(s, p, 1)); }
static Uuid ref_of(uint64_t s, uint64_t p) { return small(rec(s, p, 2), rec(s, p, 3)); }
static uint64_t size_of(uint64_t s, uint64_t p) { return 2 + rec(s, p, 4) % 4; }
static TERM term_of(uint64_t s, uint64_t p) { return TERM(rec(s, p, 5) & 3); }
static Atom atom_of(uint64_t s, uint64_t p, uint64_t i) {
    if (i == 0) return id_of(s, p);
    if (i == 1) return ref_of(s, p);
    int k = 6 + 3 * (i - 2);
    return Atom{rec(s, p, k) & 1, (rec(s, p, k + 1) & 1) | uint64_t(rec(s, p, k + 2) & 3) << 62};
}
#else
static void reset() {}
static Uuid id_of(uint64_t s, uint64_t p) { return Uuid{Word{vc_uf2("idv", s, p)}, Word{vc_uf2("ido", s, p)}}; }
static Uuid ref_of(uint64_t s, uint64_t p) { return Uuid{Word{vc_uf2("refv", s, p)}, Word{vc_uf2("refo", s, p)}}; }
static uint64_t size_of(uint64_t s, uint64_t p) { return 2 + (vc_uf2("natoms", s, p) & (FSIZE_MAX - 1)); }
static TERM term_of(uint64_t s, uint64_t p) { return TERM(vc_uf2("term", s, p) & 3); }
static Atom atom_of(uint64_t s, uint64_t p, uint64_t i) {
    Atom v{vc_uf3("atomv", s, p, i), vc_uf3("atomo", s, p, i)};
    Uuid d = id_of(s, p), r = ref_of(s, p);
    return Atom{i == 0 ? d.value.as_u64 : i == 1 ? r.value.as_u64 : v.value.as_u64, i == 0 ? d.origin.as_u64 : i == 1 ? r.origin.as_u64 : v.origin.as_u64};
}
#endif
}  // namespace g
struct GFrame;
struct GCursor {
    uint64_t src, len, n;          // n ops consumed; the current op is n-1 while 1 <= n <= len
    GCursor() : src{0}, len{0}, n{0} {}
    GCursor(uint64_t s, uint64_t l) : src{s}, len{l}, n{0} {}
    explicit GCursor(const GFrame& f);
    explicit GCursor(const char*) : GCursor{} {}
    bool valid() const { return n >= 1 && n <= len; }
    uint64_t pos() const { return n - 1; }
    Status Next();
    const Uuid id() const { vc_assert(valid(), "an id is read of a current op"); return g::id_of(src, n - 1); }
    const Uuid ref() const { vc_assert(valid(), "a ref is read of a current op"); return g::ref_of(src, n - 1); }
    TERM term() const { return g::term_of(src, n - 1); }
    Atom atom(fsize_t i = 2) const { vc_assert(valid() && i < g::size_of(src, n - 1), "an atom is read within the op"); return g::atom_of(src, n - 1, i); }
    const Atoms& op() const;
    Result NextCodepoint(Atom& a) const { vc_assert(false, "strings are read by contract"); return OK; }
    using Comparator = bool (*)(const GCursor& a, const GCursor& b);
};
#ifdef VC_NATIVE
static Atoms g_tmp[64]; static int g_tmpn;
const Atoms& GCursor::op() const {
    vc_assert(valid(), "an op is read where there is one");
    Atoms& t = g_tmp[g_tmpn++ & 63]; t.clear();
    for (uint64_t i = 0; i < g::size_of(src, n - 1); ++i) t.push_back(g::atom_of(src, n - 1, i));
    return t;
}
#else
static Atoms* g_tmp;
const Atoms& GCursor::op() const {
    vc_assert(valid(), "an op is read where there is one");
    static Atom cells[4];
    for (int i = 0; i < 4; ++i) cells[i] = g::atom_of(src, n - 1, i);
    static Atoms t{};
    t = Atoms(Atoms::vc_raw{}, cells, g::size_of(src, n - 1));
    return t;
}
#endif
struct GFrame {
    uint64_t src, len;
    using Cursor = GCursor;
    using Cursors = std::vector<GCursor>;
    GCursor cursor() const { return GCursor{src, len}; }
};
inline GCursor::GCursor(const GFrame& f) : GCursor{f.src, f.len} {}
Status GCursor::Next() {
#ifdef GHOST_LEAVE
    if (valid()) GHOST_LEAVE(src, n - 1);
#endif
    bool more = n < len;
    if (n <= len) ++n;
#ifdef GHOST_SEAT
    GHOST_SEAT(src, n);
#endif
    if (more) return Status::OK;
    return Status::ENDOFFRAME;
}
}  // namespace ron
#endif
