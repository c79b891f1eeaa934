// C14: max register merge over ghost frames
#include "vc.h"
#include "ron/text.hpp"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
#include "ron/form.hpp"
#include "ghost.h"
#include "ron/frames.hpp"
namespace ron {
// an op of the inputs is named by a word: its input and its place there
static uint64_t g_w, g_from, g_h;     // an arbitrary op; where its input starts; its input
static uint64_t src_of(uint64_t w) { return w >> 32; }
#ifdef VC_NATIVE
static bool exists(uint64_t w) { return (w & 0xffffffff) < 1 + g::size_of(w >> 32, 77) % 4; }
static uint64_t natoms(uint64_t w) { return g::size_of(w >> 32, w & 0xffffffff); }
static Uuid id_of(uint64_t w) { return g::id_of(w >> 32, w & 0xffffffff); }
static Uuid ref_of(uint64_t w) { return g::ref_of(w >> 32, w & 0xffffffff); }
static Atom atom_of(uint64_t w, uint64_t i) { return g::atom_of(w >> 32, w & 0xffffffff, i); }
#else
static bool exists(uint64_t w) { return (((w >= g_from) & (w <= g_w)) | (vc_uf1("exists", w) & 1)) & !(w >> 31 & 1); }   // with the arbitrary op all ops before it exist
static uint64_t natoms(uint64_t w) { return 2 + (vc_uf1("natoms", w) & (FSIZE_MAX - 1)); }
static Uuid id_of(uint64_t w) { return Uuid{Word{vc_uf1("idv", w)}, Word{vc_uf1("ido", w)}}; }
static Uuid ref_of(uint64_t w) { return Uuid{Word{vc_uf1("refv", w)}, Word{vc_uf1("refo", w)}}; }
static Atom atom_of(uint64_t w, uint64_t i) {
    Atom v{vc_uf2("atomv", w, i), vc_uf2("atomo", w, i)}; Uuid d = id_of(w), r = ref_of(w);
    return Atom{i == 0 ? d.value.as_u64 : i == 1 ? r.value.as_u64 : v.value.as_u64, i == 0 ? d.origin.as_u64 : i == 1 ? r.origin.as_u64 : v.origin.as_u64};
}
#endif
struct GC {                           // a cursor by contract
    uint64_t w;
    GC() : w{0} {}
    GC(uint64_t s, uint64_t n) : w{s << 32 | n} {}
    bool valid() const { return exists(w); }
    Status Next() {
        if (exists(w)) ++w;
        if (exists(w)) return Status::OK;
        return Status::ENDOFFRAME;
    }
    const Uuid id() const { vc_assert(valid(), "an id is read of a current op"); return id_of(w); }
    const Uuid ref() const {
        vc_assert(valid(), "a ref is read of a current op");
        Uuid r = ref_of(w);
        vc_assume(r != MAX_FORM_UUID || natoms(w) == 2);   // a root has no value
        return r;
    }
    TERM term() const { return REDUCED; }
    Atom atom(fsize_t i = 2) const { vc_assert(valid() && i < natoms(w), "an atom is read within the op"); return atom_of(w, i); }
    const Atoms& op() const;
    using Comparator = bool (*)(const GC& a, const GC& b);
};
#ifdef VC_NATIVE
const Atoms& GC::op() const {
    vc_assert(valid(), "an op is read where there is one");
    Atoms& t = g_tmp[g_tmpn++ & 63]; t.clear();
    for (uint64_t i = 0; i < natoms(w); ++i) t.push_back(atom_of(w, i));
    return t;
}
#else
const Atoms& GC::op() const {
    vc_assert(valid(), "an op is read where there is one");
    static Atom cells[4];
    for (int i = 0; i < 4; ++i) cells[i] = atom_of(w, i);
    static Atoms t{};
    t = Atoms(Atoms::vc_raw{}, cells, natoms(w));
    return t;
}
#endif
static double dbl(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t g_k;                  // inputs
static GC* g_in;
static uint64_t g_outs; static bool g_only, g_is_root;   // the arbitrary op is the root written first
static uint64_t g_out[2];
struct MBuilder {
    void AppendOp(const GC& c) {
        vc_assert(c.valid(), "a current op is written");
        vc_assert(g_outs < 2, "at most the root and one more op are written");
        g_out[g_outs] = c.w; ++g_outs;
    }
    void EndChunk(TERM t = RAW) {}
};
struct MFrame { using Cursor = GC; using Cursors = std::vector<GC>; using Builder = MBuilder; };
}
#include "rdt/max.hpp"
namespace ron {
using RDT = MaxRDT<MFrame>;
// the order: an op without a value comes first; numbers compare as numbers, identifiers as identifiers, kinds apart
static bool spec_less(uint64_t a, uint64_t b) {
    if (natoms(a) == 2 || natoms(b) == 2) {
        if (natoms(a) != 2) return false;
        if (natoms(b) != 2) return true;
        return id_of(a) < id_of(b);
    }
    Atom x = atom_of(a, 2), y = atom_of(b, 2);
    if (x.type() != y.type()) return x.type() < y.type();
    if (x.type() == INT) return x.value.as_integer < y.value.as_integer;
    if (x.type() == FLOAT) return dbl(x.value.as_u64) < dbl(y.value.as_u64);
    return Uuid(x) < Uuid(y);
}
static bool real(uint64_t a) { // no NaN
    if (natoms(a) == 2) return true;
    Atom x = atom_of(a, 2);
    return x.type() != FLOAT || dbl(x.value.as_u64) == dbl(x.value.as_u64);
}
PROVE(C14, order) {
    g::reset();
    GC a{0, vc_u8("a")}, b{1, vc_u8("b")}, c{2, vc_u8("c")};
    vc_assume(a.valid() && b.valid() && c.valid() && real(a.w) && real(b.w) && real(c.w));
    bool ab = RDT::Less(a, b), ba = RDT::Less(b, a), bc = RDT::Less(b, c), ac = RDT::Less(a, c);
    uint64_t na = natoms(a.w), nb = natoms(b.w);
    if (na > 2 && nb > 2) {
        Atom x = atom_of(a.w, 2), y = atom_of(b.w, 2);
        if (x.type() == INT && y.type() == INT) vc_assert(ab == (x.value.as_integer < y.value.as_integer), "integers compare as numbers");
        if (x.type() == FLOAT && y.type() == FLOAT) vc_assert(ab == (dbl(x.value.as_u64) < dbl(y.value.as_u64)), "floats compare as numbers");
        if (x.type() == UUID && y.type() == UUID) vc_assert(ab == (x.value < y.value || (x.value == y.value && x.origin < y.origin)), "identifiers compare as identifiers");
    }
    if (na == 2 && nb > 2) vc_assert(ab && !ba, "an op without a value gives way to one with a value");
    vc_assert(!(ab && ba), "of two ops at most one is less");
    vc_assert(!RDT::Less(a, a), "no op is less than itself");
    vc_assert(!ab || !bc || ac, "the order is transitive");
    vc_assert(!(ac && !ab && !bc), "what is less comes before or after any third op");
    vc_cover("order end");
}
#ifndef VC_NATIVE
// any order in which an op without a value comes before one with a value (contract of Less: see prove_C14_order)
static bool less(uint64_t a, uint64_t b) {
    bool x = natoms(a) == 2, y = natoms(b) == 2, l = vc_rank_lt("rank", a, b);
    return (x & !y) | ((x == y) & l);
}
extern "C" bool C_less(const GC& a, const GC& b) {
    vc_assert(a.valid() && b.valid(), "current ops are compared");
    return less(a.w, b.w);
}
// the loop: max is an op of the inputs, the arbitrary op is not greater once passed
extern "C" bool inv_C14_cells() { uint64_t j = vc_any("every"); return j >= g_k || src_of(g_in[j].w) == j; }
extern "C" bool inv_C14_forward() { return g_in[g_h].w >= g_from && (!g_only || !exists(g_in[0].w)); }
extern "C" bool inv_C14_done(uint32_t i) { return (int64_t)(int32_t)i < (int64_t)g_k && ((int64_t)g_h <= (int64_t)(int32_t)i || !exists(g_in[g_h].w)); }
extern "C" bool invobj8_C14_max(GC* m) {
    if (src_of(m->w) >= g_k) return false;
    if (g_only) return !exists(m->w);
    return exists(m->w) && (g_is_root || !(g_w < g_in[g_h].w) || !less(m->w, g_w));
}
#else
static bool less(uint64_t a, uint64_t b) { return spec_less(a, b); }
#endif
PROVE(C14, merge) {
    g::reset();
    g_k = vc_native() ? 1 + vc_u8("k") % 3 : vc_u32("k"); vc_assume(g_k >= 1 && g_k <= (1u << 30));
    g_h = vc_native() ? vc_u8("h") % g_k : vc_u32("h"); vc_assume(g_h < g_k);
    uint64_t p = vc_native() ? vc_u8("p") % 4 : vc_u32("p"); vc_assume(p <= FSIZE_MAX);
    g_w = g_h << 32 | p;
#ifdef VC_NATIVE
    std::vector<GC> in;
    for (uint64_t i = 0; i < g_k; ++i) { GC c{i, vc_u8("start") % 4}; vc_assume(c.valid()); in.push_back(c); }
    g_in = in.data();
#else
    g_in = (GC*)vc_new(8); vc_havoc_obj(g_in, 8);
    uint64_t j = vc_any("every"); vc_forall(j >= g_k || src_of(g_in[j].w) == j);
    g_from = g_in[g_h].w;
    vc_forall(j >= g_k || exists(g_in[j].w));
    std::vector<GC> in(std::vector<GC>::vc_raw{}, g_in, g_k);
#endif
    g_from = g_in[g_h].w;
    vc_assume(g_w >= g_from && exists(g_w));
    uint64_t r = g_in[0].w; bool root = in[0].ref() == MAX_FORM_UUID;
    // the first of a single input without any more ops
    g_only = root && g_k == 1 && !exists(r + 1);
    g_is_root = root && g_w == r;
    vc_split("root", g_only ? 2 : root);
    g_outs = 0;
    RDT rdt; MBuilder out;
    Status ok = rdt.Merge(out, in);
    vc_assert(ok == Status::OK, "the merge succeeds");
    if (root) {
        vc_assert(g_outs >= 1 && g_out[0] == r, "the root is written first");
        if (g_only) vc_assert(g_outs == 1, "a root alone is not repeated");
    }
    if (!g_is_root) {
        if (g_outs == (root ? 2 : 1)) {
            uint64_t w = g_out[root ? 1 : 0];
            vc_assert(!less(w, g_w), "the op written is the greatest of all");
            vc_assert(src_of(w) < g_k && exists(w) && ref_of(w) != MAX_FORM_UUID, "the op written is one of the inputs and no root");
        } else {
            vc_assert(g_outs == (root ? 1 : 0), "one op is written");
            vc_assert(natoms(g_w) == 2, "the greatest value is left out only when there is none");
        }
    }
    vc_cover("merge end");
}
}
