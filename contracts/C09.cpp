// C09: decimal text of 64-bit integers, buffers of the number codecs
#include "vc.h"
#define private public
#include "ron/text.hpp"
#undef private
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
#include "ron/text.cc"
#include "ron/text-builder.cc"
#include "ron/cp-parser.cc"
using namespace ron;
using Builder = TextFrame::Builder;
using Cursor = TextFrame::Cursor;

static bool dig(unsigned char c) { return (c >= '0') & (c <= '9'); }

PROVE(C09, write_parse) {
    int64_t v = (int64_t)vc_u64("v");
    Builder b;
    b.WriteInt(v);
    const String& t = b.data();
    size_t n = vc_split("n", t.size());
    vc_assert(n >= 1 && n <= 20, "the decimal text has 1 to 20 characters");
    bool neg = t[0] == '-';
    size_t s = vc_split("neg", neg ? 1 : 0);
    uint64_t sum = 0;
    bool ok = n > s;
    for (size_t i = s; i < n; ++i) { ok &= dig(t[i]); sum = sum * 10 + uint64_t((unsigned char)t[i] - '0'); }
    vc_assert(ok && (n == s + 1 || t[s] != '0'), "the text is an optional minus and digits with no leading zero");
    vc_assert(neg == (v < 0) && (neg ? 0 - sum : sum) == uint64_t(v), "the text denotes the integer");
    Slice sl{t};
    vc_assert(!Cursor::int_too_big(sl), "a printed integer is never rejected as too big");
    Cursor c{sl};
    Atom a{INT, Range{0, FSIZE(n)}};
    c.ParseInteger(a);
    vc_assert(a.value.as_integer == v, "a printed integer parses back to itself");
    vc_assert(a.origin == Atom(INT, Range{0, FSIZE(n)}).origin, "parsing keeps the text range");
    vc_cover("write_parse end");
}

PROVE(C09, parse_any) {   // sign? digits, n digits
    size_t n = vc_split("digits", 1 + vc_u8("digits") % 19), sg = vc_split("sign", vc_u8("sign") % 3);
    size_t len = n + (sg ? 1 : 0), off = vc_u32("off") & ((1u << 29) - 1), tail = vc_u32("tail") & 1023;
    
    const char* p = (const char*)vc_buf("text", off + len + tail);
    if (sg == 1) vc_assume(p[off] == '-');
    if (sg == 2) vc_assume(p[off] == '+');
    uint64_t sum = 0;
    for (size_t i = sg ? 1 : 0; i < len; ++i) { vc_assume(dig(p[off + i])); sum = sum * 10 + uint64_t((unsigned char)p[off + i] - '0'); }  // modulo 2^64
    Cursor c{Slice{p, off + len + tail}};
    Atom a{INT, Range{FSIZE(off), FSIZE(off + len)}};
    c.ParseInteger(a);
    vc_assert(uint64_t(a.value.as_integer) == (sg == 1 ? 0 - sum : sum), "the digits denote the integer");
    vc_cover("parse_any end");
}

PROVE(C09, too_big) {
    size_t len = vc_u32("len");
    vc_assume(len >= 1 && len <= FSIZE_MAX);
    const char* p = (const char*)vc_buf("text", len);
    bool neg = p[0] == '-', pos = p[0] == '+';
    size_t s = neg || pos ? 1 : 0, n = len - s;
    bool want = n > 19;
    if (n == 19) {
        const char* lim = neg ? "9223372036854775808" : "9223372036854775807";
        int cmp = 0;
        for (size_t i = 0; i < 19; ++i) { unsigned char x = p[s + i], y = lim[i]; cmp = cmp ? cmp : x < y ? -1 : x > y ? 1 : 0; }
        want = cmp > 0;
    }
    vc_assert(Cursor::int_too_big(Slice{p, len}) == want, "exactly the integers outside the 64-bit range are too big");
    vc_cover("too_big end");
}

PROVE(C09, floats_fit) {
    double d; uint64_t bits = vc_u64("bits"); memcpy(&d, &bits, 8);
    if (vc_native() && d - d != 0) return;   // NaN and infinities have no RON text
    Builder b;
    b.WriteFloat(d);
    vc_assert(b.data().size() <= 24, "the text of a float is within the parser's 24-byte limit");
    size_t n = vc_u32("n"), off = vc_u32("off");
    vc_assume(n <= 24 && off < (1u << 29));
    const char* p = (const char*)vc_buf("text", off + n);
    Cursor c{Slice{p, off + n}};
    Atom a{FLOAT, Range{FSIZE(off), FSIZE(off + n)}};
    c.ParseFloat(a);
    vc_assert(a.type() == FLOAT && a.origin == Atom(FLOAT, Range{FSIZE(off), FSIZE(off + n)}).origin, "parsing a float keeps its type and range");
    vc_cover("floats_fit end");
}
