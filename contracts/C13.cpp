// C13: the merge of op streams (heap of cursors) over streams known by contract
#include "vc.h"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
#include "ron/op.hpp"
#ifdef VC_NATIVE
#include <map>
#endif
namespace ron {
// input streams: stream s holds ops 0..len(s)-1; pos[s] ops of it are consumed, the current op being pos[s]-1
static uint64_t g_k;            // number of inputs
static uint64_t* g_pos;
static bool g_sorted;           // every stream is sorted
#ifdef VC_NATIVE
static std::map<std::pair<uint64_t, uint64_t>, std::pair<uint64_t, uint64_t>> g_ops;
static const std::pair<uint64_t, uint64_t>& rec(uint64_t s, uint64_t p) {
    auto i = g_ops.find({s, p});
    if (i == g_ops.end()) { uint64_t a = vc_u8("op"), b = vc_u8("op"); i = g_ops.emplace(std::make_pair(s, p), std::make_pair(a, b)).first; }
    return i->second;
}
static Uuid id_of(uint64_t s, uint64_t p) { return Uuid{Word{(p << 4) + (rec(s, p).first & 31)}, Word{rec(s, p).first >> 5 & 1}}; }
static Uuid ref_of(uint64_t s, uint64_t p) { return Uuid{Word{rec(s, p).second & 3}, Word{rec(s, p).second >> 2 & 1}}; }
static uint64_t len_of(uint64_t s) { return rec(s, 1 << 20).first % 5; }
#else
static uint64_t at(uint64_t s, uint64_t p) { return s << 32 | p; }
static Uuid id_of(uint64_t s, uint64_t p) { return Uuid{Word{vc_uf1("idv", at(s, p))}, Word{vc_uf1("ido", at(s, p))}}; }
static Uuid ref_of(uint64_t s, uint64_t p) { return Uuid{Word{vc_uf1("refv", at(s, p))}, Word{vc_uf1("refo", at(s, p))}}; }
static uint64_t len_of(uint64_t s) { return vc_uf1("len", s) & (FSIZE_MAX - 1); }
#endif
static void leave(uint64_t s, uint64_t p);
struct HCursor {                // a cursor by contract; a handle of its stream
    uint64_t src;
    bool valid() const { return g_pos[src] >= 1 && g_pos[src] <= len_of(src); }
    const Uuid id() const { return id_of(src, g_pos[src] - 1); }
    const Uuid ref() const { return ref_of(src, g_pos[src] - 1); }
    const Atoms& op() const;
    Status Next();
    using Comparator = bool (*)(const HCursor& a, const HCursor& b);
};
static bool in_order(uint64_t s, uint64_t p);
Status HCursor::Next() {
    uint64_t n = g_pos[src];
    vc_assert(n >= 1 && n <= len_of(src), "only a cursor with a current op is moved");
    leave(src, n - 1);
    g_pos[src] = n + 1;
    if (n < len_of(src)) { vc_assume(!g_sorted || in_order(src, n - 1)); return Status::OK; }
    return Status::ENDOFFRAME;
}
struct HIter {
    HCursor c;
    const HCursor& operator*() const { return c; }
    HCursor& operator*() { return c; }
    HCursor* operator->() { return &c; }
    const HCursor* operator->() const { return &c; }
    HIter& operator++() { ++c.src; return *this; }
    HIter operator++(int) { HIter r = *this; ++c.src; return r; }
    bool operator!=(const HIter& b) const { return c.src != b.c.src; }
    bool operator==(const HIter& b) const { return c.src == b.c.src; }
};
}  // namespace ron
namespace std {
template <> class vector<ron::HCursor> {
   public:
    using iterator = ron::HIter; using const_iterator = ron::HIter;
    ron::HIter begin() { return ron::HIter{ron::HCursor{0}}; }
    ron::HIter end() { return ron::HIter{ron::HCursor{ron::g_k}}; }
    size_t size() const { return ron::g_k; }
    bool empty() const { return ron::g_k == 0; }
    ron::HCursor operator[](size_t i) const { return ron::HCursor{i}; }
    ron::HCursor back() const { return ron::HCursor{ron::g_k - 1}; }
};
}
#include "rdt/lww.hpp"
#include "rdt/meta.hpp"
namespace ron {
#ifdef VC_NATIVE
static Atoms g_tmp[64]; static int g_tmpn;
const Atoms& HCursor::op() const { Atoms& t = g_tmp[g_tmpn++ & 63]; t.clear(); t.push_back(id()); t.push_back(ref()); return t; }
#else
static Atom g_cells[2]; static Atoms g_tmp{Atoms::vc_raw{}, g_cells, 2};
const Atoms& HCursor::op() const { g_cells[0] = id(); g_cells[1] = ref(); return g_tmp; }
#endif
// the output: monitors every op written
static bool g_emitted; static uint64_t g_last_src, g_last_pos;
static Uuid last_id() { return id_of(g_last_src, g_last_pos); }
static void before_emit();
struct HBuilder {
    void AppendOp(const HCursor& c) {
        vc_assert(c.valid(), "the current op of an input is written");
        before_emit();
        vc_assert(!g_sorted || !g_emitted || last_id() < c.id(), "ops are written in ascending order of ids, each id once");
        g_emitted = true; g_last_src = c.src; g_last_pos = g_pos[c.src] - 1;
        vc_cover("an op is written");
    }
    void EndChunk(TERM t = RAW) {}
};
static void leave(uint64_t s, uint64_t p) {
    vc_assert(g_emitted && id_of(s, p) == last_id(), "an op is passed only when an op of its id has just been written");
}
struct HFrame {
    using Cursor = HCursor; using Cursors = std::vector<HCursor>; using Builder = HBuilder;
    Cursor cursor() const { return HCursor{0}; }
};
#ifdef BY_REF
using RDT = MetaRDT<HFrame>;
#else
using RDT = LastWriteWinsRDT<HFrame>;
#endif
using MC = RDT::MCursor;
static MC* g_mc;
// the order of ops, as the real comparison has it
static bool Less(uint64_t a, uint64_t b) { HCursor x{a}, y{b}; return RDT::less_than(x, y); }
static bool g_abs;
static bool op_less(uint64_t s, uint64_t p, uint64_t t, uint64_t q) {
#ifndef VC_NATIVE
    if (g_abs) return vc_rank_lt("rank", at(s, p), at(t, q));
#endif
    Uuid a = id_of(s, p), b = id_of(t, q);
#ifdef BY_REF
    Uuid ra = ref_of(s, p), rb = ref_of(t, q);
    return a < b || (a == b && rb < ra);
#else
    return a < b;
#endif
}
static bool in_order(uint64_t s, uint64_t p) { return !op_less(s, p + 1, s, p); }
#ifdef VC_NATIVE
static void before_emit() {}
#else
static uint64_t g_j;            // an arbitrary place
static uint64_t g_h, g_pos0;    // an arbitrary stream, where it starts
static uint64_t* g_place;       // the place of each stream that is in the heap: no stream is there twice
static uint64_t count(const MC* m) { return m->cursors_.size(); }
static uint64_t cell(const MC* m, uint64_t k) { return m->cursors_.data()[k].c.src; }
static uint64_t parent(uint64_t k) { return ((k + 1) >> 1) - 1; }
// sifting is verified for every strict weak order of the cursors: such an order of finitely many ops is an order by rank (contract of less_than,
// see prove_C13_less_than_is_an_order); the other parts use the real comparison
extern "C" bool C_less(const HCursor& a, const HCursor& b) { return vc_rank_lt("rank", at(a.src, g_pos[a.src] - 1), at(b.src, g_pos[b.src] - 1)); }
static bool leq(uint64_t a, uint64_t b) { return !op_less(b, g_pos[b] - 1, a, g_pos[a] - 1); }
static bool heap_at(const MC* m, uint64_t k) { return k == 0 || k >= count(m) || leq(cell(m, parent(k)), cell(m, k)); }
static bool valid_at(const MC* m, uint64_t k) { uint64_t c = cell(m, k), p = g_pos[c]; return k >= count(m) || (c < g_k && p >= 1 && p <= len_of(c)); }
static bool placed_at(const MC* m, uint64_t k) { return k >= count(m) || g_place[cell(m, k)] == k; }
static bool has_op(uint64_t c) { return g_pos[c] >= 1 && g_pos[c] <= len_of(c); }
static bool in_heap(const MC* m, uint64_t c) { uint64_t w = g_place[c]; return w < count(m) && cell(m, w) == c; }
static bool after_last(const MC* m, uint64_t c) {
    return !g_sorted || !g_emitted || !in_heap(m, c) || !op_less(c, g_pos[c] - 1, g_last_src, g_last_pos);
}
// a quantified condition is assumed for every index, or required for an arbitrary one
static void all(bool given, bool c, const char* what) { if (given) vc_forall(c); else vc_assert(c, what); }
static void one(bool given, bool c, const char* what) { if (given) vc_assume(c); else vc_assert(c, what); }
// the heap after the contract's function: its cells are new
static void new_cells(MC* m) { vc_havoc_obj(m->cursors_.data(), 8); vc_havoc_obj(g_place, 8); }
// heap conditions with a hole: the pairs under idx may be out of order
static bool push_pre(const MC* m, uint64_t idx, uint64_t k) {
    if (k == 0 || k >= count(m)) return true;
    uint64_t u = parent(k);
    return u != idx ? leq(cell(m, u), cell(m, k)) : idx == 0 || leq(cell(m, parent(idx)), cell(m, k));
}
static bool pop_pre(const MC* m, uint64_t idx, uint64_t k) {
    if (k == 0 || k >= count(m)) return true;
    uint64_t u = parent(k);
    return k != idx ? leq(cell(m, u), cell(m, k)) && (u != idx || idx == 0 || leq(cell(m, parent(idx)), cell(m, k))) : true;
}
static uint32_t g_idx; static bool g_rec;
// the two neighbours may have been swapped, or the last one moved up
static void replace(const MC* m, uint64_t idx) {
    g_place[cell(m, idx)] = idx;
    if (g_rec) g_place[cell(m, g_idx)] = g_idx;
}
// case split over the place of the arbitrary pair relative to the start of sifting
static void cases(uint64_t idx, uint64_t k) {
    uint64_t l = 2 * idx + 1, r = l + 1, u = parent(idx), p = k == 0 ? ~uint64_t(0) : parent(k);
    vc_split("case", k == idx ? 0 : k == l || k == r ? 1 : p == l ? 2 : p == r ? 3 : idx && k == u ? 4 : idx && p == u ? 5 : 6);
}
#define SIFT_PRE(given, PRE) \
    uint64_t k = given ? vc_any("every") : g_j; \
    one(given, count(m) <= 1u << 30 && g_k <= 1u << 30, "the heap is of representable size"); \
    if (!given) replace(m, idx); \
    uint64_t h = given ? g_h : vc_any("stream"); bool in = in_heap(m, h); \
    all(given, valid_at(m, k), "streams in the heap have a current op"); \
    all(given, placed_at(m, k), "no stream is in the heap twice"); \
    all(given, PRE(m, idx, k), "heap order but at the given place");
#define SIFT_POST(given) \
    k = given ? vc_any("every") : g_j; \
    all(given, valid_at(m, k), "streams in the heap have a current op after sifting"); \
    all(given, placed_at(m, k), "no stream is duplicated by sifting"); \
    all(given, heap_at(m, k), "sifting restores the heap order"); \
    all(given, in_heap(m, h) == in, "no stream is dropped or added by sifting");
extern "C" void C_push(MC* m, uint32_t idx) {
    bool c = vc_checking();
    if (c) cases(idx, g_j);
    one(c, idx < count(m) || (idx == 0 && count(m) == 0), "sifting starts within the heap");
    SIFT_PRE(c, push_pre)
    if (c) { g_idx = idx; g_rec = true; m->push(idx); g_rec = false; }
    else { if (g_rec) vc_assert(idx > g_idx, "sifting down terminates"); new_cells(m); }
    SIFT_POST(!c)
}
extern "C" void C_pop(MC* m, uint32_t idx) {
    bool c = vc_checking();
    if (c) cases(idx, g_j);
    one(c, idx < count(m), "sifting starts within the heap");
    SIFT_PRE(c, pop_pre)
    if (c) { g_idx = idx; g_rec = true; m->pop(idx); g_rec = false; }
    else { if (g_rec) vc_assert(idx < g_idx, "sifting up terminates"); new_cells(m); }
    SIFT_POST(!c)
}
static void before_emit() {
    vc_assert(heap_at(g_mc, g_j), "the heap is in order");
    uint64_t k = vc_any("every");
    vc_forall(k >= count(g_mc) || leq(cell(g_mc, 0), cell(g_mc, k)));   // lemma root_is_least
}
static MC* heap() {
    MC* m = new MC();
    g_pos = (uint64_t*)vc_new(8); vc_havoc_obj(g_pos, 8);
    g_place = (uint64_t*)vc_new(8); vc_havoc_obj(g_place, 8);
    HIter* cells = (HIter*)vc_new(8); vc_havoc_obj(cells, 8);
    g_k = vc_u32("inputs"); g_h = vc_u32("stream"); g_sorted = vc_bool("sorted"); g_emitted = vc_bool("emitted");
    g_last_src = vc_u32("lastsrc"); g_last_pos = vc_u32("lastpos");
    new (&m->cursors_) std::vector<HIter>(std::vector<HIter>::vc_raw{}, cells, vc_u32("size"));
    g_j = vc_u64("k"); g_mc = m; g_rec = false;
    return m;
}
PROVE(C13, push) { MC* m = heap(); g_abs = true; vc_begin_check((void*)C_push); C_push(m, vc_u32("idx")); vc_cover("push end"); }
PROVE(C13, less_than_is_an_order) {
    g_pos = (uint64_t*)vc_new(8); vc_havoc_obj(g_pos, 8);
    uint64_t a = vc_u32("a"), b = vc_u32("b"), c = vc_u32("c");
    vc_assert(Less(a, b) == op_less(a, g_pos[a] - 1, b, g_pos[b] - 1), "cursors compare as their current ops");
    vc_assert(!Less(a, a), "no cursor precedes itself");
    vc_assert(!(Less(a, b) && Less(b, a)), "of two cursors one precedes at most");
    vc_assert(!(Less(a, c) && !Less(a, b) && !Less(b, c)), "what precedes comes before or after any third cursor");
#ifndef BY_REF
    vc_assert((!Less(a, b) && !Less(b, a)) == (HCursor{a}.id() == HCursor{b}.id()), "cursors rank the same only with the same id");
#endif
    vc_cover("order end");
}
PROVE(C13, pop) { MC* m = heap(); g_abs = true; vc_begin_check((void*)C_pop); C_pop(m, vc_u32("idx")); vc_cover("pop end"); }
// Next(): the ops of the id just written are passed, the next root has another id
static bool root_is_last() { return count(g_mc) > 0 && id_of(cell(g_mc, 0), g_pos[cell(g_mc, 0)] - 1) == last_id(); }
extern "C" bool inv_C13_heap() { return heap_at(g_mc, vc_any("every")); }
extern "C" bool inv_C13_valid() { return valid_at(g_mc, vc_any("every")); }
extern "C" bool inv_C13_placed() { return placed_at(g_mc, vc_any("every")); }
extern "C" bool inv_C13_after() { return after_last(g_mc, vc_any("stream")); }
extern "C" bool inv_C13_in() { uint64_t h = vc_any("stream"); return in_heap(g_mc, h) == (h < g_k && has_op(h)); }
extern "C" bool inv_C13_root() { return root_is_last(); }
extern "C" bool inv_C13_pos() { return g_pos[g_h] >= g_pos0; }
extern "C" bool inv_C13_size() { return count(g_mc) <= 1u << 30; }
extern "C" bool inv_C13_strict() { return !g_emitted || (count(g_mc) > 0 && !root_is_last()); }
extern "C" bool inv_C13_upto(uint64_t i) { return i <= g_k && count(g_mc) <= i; }
extern "C" bool inv_C13_added(uint64_t i) { uint64_t h = vc_any("stream"); return in_heap(g_mc, h) == (h < i && has_op(h)); }
#define HEAP_STATE(given) \
    k = given ? vc_any("every") : g_j; h = given ? vc_any("stream") : g_h; \
    one(given, count(m) <= 1u << 30 && g_k <= 1u << 30, "the heap is of representable size"); \
    all(given, heap_at(m, k), "the heap is in order"); \
    all(given, valid_at(m, k), "streams in the heap have a current op"); \
    all(given, placed_at(m, k), "no stream is in the heap twice"); \
    all(given, after_last(m, h), "what remains comes after what was written"); \
    all(given, in_heap(m, h) == (h < g_k && has_op(h)), "every stream with a current op is in the heap"); \
    one(given, g_pos[g_h] >= g_pos0, "streams are read forward");
extern "C" bool C_next(MC* m) {
    bool c = vc_checking(); uint64_t k, h;
    g_mc = m;
    HEAP_STATE(c)
    one(c, g_emitted && root_is_last(), "the current op has been written");
    bool r;
    if (c) r = m->Next();
    else {
        new_cells(m); vc_havoc_obj(g_pos, 8);
        new (&m->cursors_) std::vector<HIter>(std::vector<HIter>::vc_raw{}, (HIter*)m->cursors_.data(), vc_u32("size"));
        r = vc_bool("more");
    }
    HEAP_STATE(!c)
    one(!c, r == (count(m) > 0), "Next tells whether there is an op");
    one(!c, !root_is_last(), "the next op has another id");
    return r;
}
extern "C" void C_ctor(MC* m, std::vector<HCursor>& in) {
    bool c = vc_checking(); uint64_t k, h;
    g_mc = m;
    one(c, !g_emitted && g_k <= 1u << 30 && g_pos[g_h] == g_pos0 && g_h < g_k, "nothing has been written yet");
    if (c) new (m) MC(in);
    else {
        HIter* cells = (HIter*)vc_new(8); vc_havoc_obj(cells, 8); vc_havoc_obj(g_place, 8);
        new (&m->cursors_) std::vector<HIter>(std::vector<HIter>::vc_raw{}, cells, vc_u32("size"));
    }
    HEAP_STATE(!c)
}
PROVE(C13, next) { MC* m = heap(); g_abs = true; g_pos0 = vc_u64("start"); vc_begin_check((void*)C_next); C_next(m); vc_cover("next end"); }
PROVE(C13, ctor) { MC* m = heap(); g_abs = true; g_pos0 = vc_u64("start"); std::vector<HCursor> in; vc_begin_check((void*)C_ctor); C_ctor(m, in); vc_cover("ctor end"); }
PROVE(C13, merge) {
    heap(); g_pos0 = g_pos[g_h]; vc_assume(!g_emitted && g_k <= 1u << 30 && g_h < g_k);
    std::vector<HCursor> in; HBuilder out;
    bool started = has_op(g_h);
    RDT rdt;
    Status ok = rdt.Merge(out, in);
    vc_assert(ok == Status::OK, "the merge succeeds");
    vc_assert(!started || g_pos[g_h] > len_of(g_h), "every op of every input is written or has the id of a written op");
    vc_cover("merge end");
}
PROVE(C13, root_is_least) {
    g_abs = false;
    // induction over the places of the heap: the parent's place is smaller
    MC* m = heap();
    uint64_t j = vc_u32("j"); vc_assume(j >= 1 && j < count(m));
    vc_assume(heap_at(m, j) && leq(cell(m, 0), cell(m, parent(j))));
    vc_assert(parent(j) < j && leq(cell(m, 0), cell(m, j)), "the root of a heap is its least element");
    vc_assert(leq(cell(m, 0), cell(m, 0)), "the order is reflexive");
    vc_cover("lemma end");
}
#endif
#ifdef VC_NATIVE
PROVE(C13, merge) {
    g_ops.clear();
    g_k = vc_u8("inputs") % 6; uint64_t pos[8], start[8]; g_pos = pos; g_sorted = vc_bool("sorted"); g_emitted = false;
    for (uint64_t i = 0; i < g_k; ++i) pos[i] = start[i] = vc_u8("start") % 4;
    std::vector<HCursor> in; HBuilder out;
    RDT rdt;
    vc_assert(rdt.Merge(out, in) == Status::OK, "the merge succeeds");
    for (uint64_t i = 0; i < g_k; ++i) vc_assert(start[i] < 1 || start[i] > len_of(i) || pos[i] > len_of(i), "every op of every input is written or has the id of a written op");
}
#define NATIVE_ONLY(n) PROVE(C13, n) { prove_C13_merge(); }
NATIVE_ONLY(next) NATIVE_ONLY(ctor) NATIVE_ONLY(push) NATIVE_ONLY(pop) NATIVE_ONLY(less_than_is_an_order) NATIVE_ONLY(root_is_least)
#endif
}  // namespace ron
