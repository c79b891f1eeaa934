// C03: order of words and identifiers
#include "vc.h"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
using namespace ron;

// oracle: the numeric order of the 128-bit number value:origin
static bool lt128(uint64_t av, uint64_t ao, uint64_t bv, uint64_t bo) { return av < bv || (av == bv && ao < bo); }

PROVE(C03, word_order) {
    Word a{vc_u64("a")}, b{vc_u64("b")};
    bool lt = a.as_u64 < b.as_u64, eq = a.as_u64 == b.as_u64;
    vc_assert((a < b) == lt, "word < is the numeric order");
    vc_assert((a > b) == (!lt && !eq), "word > is the numeric order");
    vc_assert((a <= b) == (lt || eq), "word <= is the numeric order");
    vc_assert((a >= b) == !lt, "word >= is the numeric order");
    vc_assert((a == b) == eq, "word == is equality of all bits");
    vc_assert((a != b) == !eq, "word != is inequality");
    vc_assert(a != b || a.hash() == b.hash(), "equal words hash alike");
    vc_assert(a.is_zero() == (a.as_u64 == 0), "zero test");
    vc_assert(a.payload() == (a.as_u64 & ((uint64_t(1) << 60) - 1)) && a.flags() == uint8_t(a.as_u64 >> 60), "payload and flags split the word");
    vc_assert(a.inc().as_u64 == a.as_u64 + 1 && a.dec().as_u64 == a.as_u64 - 1 && a.inc(b.as_u64).as_u64 == a.as_u64 + b.as_u64, "inc and dec step by the amount");
    vc_cover("word_order end");
}

PROVE(C03, uuid_order) {
    uint64_t av = vc_u64("av"), ao = vc_u64("ao"), bv = vc_u64("bv"), bo = vc_u64("bo");
    Uuid a{Word{av}, Word{ao}}, b{Word{bv}, Word{bo}};
    bool lt = lt128(av, ao, bv, bo), gt = lt128(bv, bo, av, ao), eq = av == bv && ao == bo;
    vc_assert((a < b) == lt, "identifier < orders by value, then origin");
    vc_assert((a > b) == gt, "identifier > is the converse of <");
    vc_assert((a <= b) == !gt, "identifier <= is the negation of >");
    vc_assert((a >= b) == !lt, "identifier >= is the negation of <");
    vc_assert((a == b) == eq, "identifier == is equality of all bits");
    vc_assert((a != b) == !eq, "identifier != is inequality");
    vc_assert(!eq || std::hash<Uuid>{}(a) == std::hash<Uuid>{}(b), "equal identifiers hash alike");
    vc_assert(a.value.as_u64 == av && a.origin.as_u64 == ao, "an identifier keeps its value and origin");
    vc_cover("uuid_order end");
}

PROVE(C03, uuid_total) {
    Uuid a{Word{vc_u64("av")}, Word{vc_u64("ao")}}, b{Word{vc_u64("bv")}, Word{vc_u64("bo")}}, c{Word{vc_u64("cv")}, Word{vc_u64("co")}};
    vc_assert(!(a < a), "< is irreflexive");
    vc_assert((a < b) + (b < a) + (a == b) == 1, "exactly one of <, ==, > holds");
    vc_assert(!(a < b && b < c) || a < c, "< is transitive");
    vc_cover("uuid_total end");
}

PROVE(C03, event_versions) {
    uint64_t v = vc_u64("v"), o = vc_u64("o");
    Uuid u{Word{v}, Word{o}};
    Uuid e = u.event(), d = u.derived();
    uint64_t P = (uint64_t(1) << 60) - 1;
    vc_assert(e.value.as_u64 == v && (e.origin.as_u64 & P) == (o & P) && e.version() == TIME && (e.origin.as_u64 >> 62) == 0, "the event version of an identifier keeps value and origin");
    vc_assert(d.value.as_u64 == v && (d.origin.as_u64 & P) == (o & P) && d.version() == DERIVED && (d.origin.as_u64 >> 62) == 0, "the derived version of an identifier keeps value and origin");
    vc_cover("event_versions end");
}

// byte order of the texts of two words equals the order of the words
PROVE(C03, text_order) {
    uint64_t x = vc_u64("x"), y = vc_u64("y");
    vc_assume((x >> 60) == 0 && (y >> 60) == 0);
    Word a{x}, b{y};
    String s, t;
    a.write_base64(s); b.write_base64(t);
    size_t n = vc_split("n", s.size()), m = vc_split("m", t.size());
    int cmp = 0;
    for (size_t i = 0; i < (n < m ? n : m); ++i) {
        unsigned char p = s[i], q = t[i];
        cmp = cmp ? cmp : p < q ? -1 : p > q ? 1 : 0;
    }
    if (cmp == 0) cmp = n < m ? -1 : n > m ? 1 : 0;
    vc_assert((cmp < 0) == (x < y) && (cmp == 0) == (x == y), "words sort as their texts do");
    vc_cover("text_order end");
}
