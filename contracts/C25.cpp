// C25: slices and ranges
#include "vc.h"
#include "ron/slice.hpp"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
using namespace ron;

static bool wf(fsize_t b, fsize_t e, fsize_t n) { return b <= e && e <= n && n <= FSIZE_MAX; }

PROVE(C25, range_algebra) {
    fsize_t b = vc_u32("b"), e = vc_u32("e");
    vc_assume(wf(b, e, FSIZE_MAX));
    Range r{b, e};
    vc_assert(r.begin() == b && r.end() == e && r.size() == e - b && r.length() == e - b && r.valid(), "a range keeps its limits");
    vc_assert(r.empty() == (b == e), "a range is empty when its limits meet");
    vc_assert(Range::FroTo(b, e) == r && Range::AtFor(b, e - b) == r && Range::FroToL(b, e) == r, "range constructors agree");
    fsize_t n = vc_u32("n");
    if (n < e - b) vc_assert(r.offset(n) == b + n, "offset counts from the beginning");
    if (n <= e - b) {
        Range c = r; c.Consume(n);
        vc_assert(c.begin() == b + n && c.end() == e, "consuming moves the beginning only");
        Range s = r; s.Shorten(n);
        vc_assert(s.begin() == b && s.end() == e - n, "shortening moves the end only");
        Range z = r; z.Resize(n);
        vc_assert(z.begin() == b && z.size() == n, "resizing keeps the beginning");
        Range q = r; q.EndAt(b + n);
        vc_assert(q.begin() == b && q.end() == b + n, "ending at an offset keeps the beginning");
    }
    if (b < e) { Range i = r; ++i; vc_assert(i.begin() == b + 1 && i.end() == e, "increment consumes one"); }
    Range o{vc_u32("ob"), vc_u32("oe")};
    vc_assert((r == o) == (o.begin() == b && o.end() == e) && (r != o) == !(r == o), "range equality compares both limits");
    // packed into an atom
    Word w{r};
    vc_assert(w.range() == Range(b & FSIZE_BITS, e & FSIZE_BITS), "a range survives packing into a word");
    vc_cover("range_algebra end");
}

PROVE(C25, slice_views) {
    fsize_t n = vc_u32("n"), b = vc_u32("b"), e = vc_u32("e");
    vc_assume(wf(b, e, n));
    CharRef p = (CharRef)vc_buf("data", n);
    Slice s{p, Range{b, e}};
    vc_assert(s.begin() == p + b && s.end() == p + e && s.size() == e - b && s.data() == p && s.buffer() == p, "a slice views its range");
    vc_assert(s.empty() == (b == e), "a slice is empty when its range is");
    fsize_t i = vc_u32("i");
    if (i < e - b) {
        vc_assert(s[i] == p[b + i] && s.at(i) == p[b + i], "indexing reads the viewed byte");
        vc_assert(*s == p[b], "dereferencing reads the first byte");
        Slice t = s; ++t;
        vc_assert(t.begin() == p + b + 1 && t.end() == p + e, "incrementing skips one byte");
    }
    fsize_t x = vc_u32("x"), y = vc_u32("y");
    if (x <= y && y <= e - b && x < e - b) {
        Slice t = s.slice(Range{x, y});
        vc_assert(t.begin() == p + b + x && t.size() == y - x, "a sub-slice views the sub-range");
        vc_assert(s.range_of(t) == Range(x, y), "range_of recovers the sub-range");
        Slice pre = s.CutOff(t);
        vc_assert(pre.begin() == s.begin() && pre.end() == t.begin(), "cutting off keeps what precedes");
        vc_assert(s.same(s) && s.same(t) == (x == 0 && y == e - b), "same compares the viewed ranges");
        Slice c = s; c.Consume(x);
        vc_assert(c.begin() == p + b + x && c.end() == p + e, "consuming skips bytes");
        Slice k = s; k.EndAt(b + y);
        vc_assert(k.begin() == p + b && k.end() == p + b + y, "ending a slice keeps its beginning");
        Slice z = s; z.Resize(y);
        vc_assert(z.begin() == p + b && z.size() == y, "resizing a slice keeps its beginning");
    }
    vc_assert(s.reset().begin() == p && s.reset().end() == p + e, "reset goes back to the buffer start");
    vc_assert(s.consumed().begin() == p && s.consumed().end() == p + b, "consumed is what precedes the slice");
    Slice f{p + b, p + e};
    vc_assert(f.begin() == p + b && f.size() == e - b, "a slice between two pointers views the bytes between");
    vc_cover("slice_views end");
}

PROVE(C25, slice_str) {
    fsize_t n = vc_u32("n"), b = vc_u32("b"), e = vc_u32("e");
    vc_assume(wf(b, e, n));
    CharRef p = (CharRef)vc_buf("data", n);
    Slice s{p, Range{b, e}};
    String t = s.str();
    vc_assert(t.size() == e - b, "the copy of a slice has its size");
    fsize_t i = vc_u32("i");
    if (i < e - b) vc_assert((Char)t[i] == p[b + i], "the copy of a slice has its bytes");
    vc_cover("slice_str end");
}

PROVE(C25, slice_of_string) {
    fsize_t n = vc_u32("n");
    vc_assume(n < FSIZE_MAX);
    const String t = vc_string("t", n);
    Slice s{t};
    vc_assert(s.size() == n && s.begin() == (CharRef)t.data(), "a slice of a string views the whole string");
    fsize_t b = vc_u32("b"), e = vc_u32("e");
    if (wf(b, e, n)) {
        Slice r{t, Range{b, e}};
        vc_assert(r.begin() == (CharRef)t.data() + b && r.size() == e - b, "a slice of a string range views it");
    }
    vc_cover("slice_of_string end");
}
