// C01: UUID text round trip
#include "vc.h"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
using namespace ron;

static bool b64(Char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_' || c == '~'; }

PROVE(C01, word_roundtrip) {
    Word w{vc_u64("w")};
    vc_assume(w.flags() == 0);
    String s;
    w.write_base64(s);
    size_t n = vc_concretize(s.size());
    vc_assert(n >= 1 && n <= 10, "a 60-bit word prints as 1 to 10 digits");
    for (size_t i = 0; i < n; ++i) vc_assert(b64(s[i]), "a word prints as Base64 digits only");
    vc_assert(n == 1 || s[n - 1] != '0', "a word prints without trailing zero digits");
    Word back{0, Slice{s}};
    vc_assert(back == w, "a word's text parses back to the same word");
    vc_cover("word_roundtrip end");
}


// number of Base64 digits a 60-bit payload needs (ghost)
static size_t digits(uint64_t w) { size_t n = 1; for (size_t i = 1; i < 10; ++i) n = (w & ((uint64_t(1) << (60 - 6 * i)) - 1)) ? i + 1 : n; return n; }

PROVE(C01, uuid_roundtrip) {
    Uuid u{Word{vc_u64("value")}, Word{vc_u64("origin")}};
    vc_assume(u.origin.flags() < 4);
    vc_split("vlen", digits(u.value.as_u64));
    vc_split("olen", digits(u.origin.as_u64));
    vc_split("variety", u.variety() != 0);
    vc_split("version", u.version() != 0 || !u.origin.is_zero());
    String s;
    u.write_base64(s);
    Uuid v{Slice{s}};
    vc_assert(v == u, "an identifier's text parses back to the same identifier");
    vc_cover("uuid_roundtrip end");
}
