// C18: SHA2 texts and comparison
#include "vc.h"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
#include "ron/op.hpp"
#include "ron/frames.hpp"
#include "ron/hash.hpp"
using namespace ron;

static unsigned pick(bool c, unsigned v) { return -unsigned(c) & v; }   // branch-free oracles
static bool in(unsigned char c, unsigned char a, unsigned char b) { return (c >= a) & (c <= b); }
static bool ishex(unsigned char c) { return in(c, '0', '9') | in(c, 'a', 'f') | in(c, 'A', 'F'); }
static unsigned hexval(unsigned char c) { return pick(in(c, '0', '9'), c - '0') | pick(in(c, 'a', 'f'), c - 'a' + 10) | pick(in(c, 'A', 'F'), c - 'A' + 10); }
static bool isb64(unsigned char c) { return in(c, '0', '9') | in(c, 'A', 'Z') | in(c, 'a', 'z') | (c == '_') | (c == '~'); }
static unsigned b64val(unsigned char c) {
    return pick(in(c, '0', '9'), c - '0') | pick(in(c, 'A', 'Z'), c - 'A' + 10) | pick(c == '_', 36) | pick(in(c, 'a', 'z'), c - 'a' + 37) | pick(c == '~', 63);
}
// bit i of a hash (msb first)
static unsigned bit(const String& s, unsigned i) { return ((unsigned char)s[i >> 3] >> (7 - (i & 7))) & 1; }

PROVE(C18, hex_roundtrip) {
    size_t n = vc_split("n", vc_u8("n") % 65);
    const String t = vc_string("hex", n);
    for (size_t i = 0; i < n; ++i) vc_assume(ishex(t[i]));
    SHA2 h = SHA2::ParseHex(t);
    vc_assert(h.bits_.size() == SHA2::SIZE, "a hash is 32 bytes");
    vc_assert(h.known_bits() == 4 * n && h.defined() == (n > 0), "each hex digit makes four bits known");
    for (unsigned k = 0; k < n; ++k)
        vc_assert((((unsigned char)h.bits_[k / 2] >> (k % 2 ? 0 : 4)) & 15) == hexval(t[k]), "the bits are those of the digits");
    String out = h.hex();
    vc_assert(out.size() == n, "a hash prints as many hex digits as are known");
    for (size_t i = 0; i < n && i < out.size(); ++i) {
        unsigned char lc = t[i] + pick(in(t[i], 'A', 'F'), 32);
        vc_assert((unsigned char)out[i] == lc, "hex digits print back (lower case)");
    }
    vc_cover("hex_roundtrip end");
}

PROVE(C18, base64_roundtrip) {
    size_t n = vc_split("n", vc_u8("n") % 44);
    const String t = vc_string("b64", n);
    for (size_t i = 0; i < n; ++i) vc_assume(isb64(t[i]));
    if (n == 43) vc_assume((b64val(t[42]) & 3) == 0);
    if (n == 43) vc_assert(SHA2::valid(Slice{t}), "a full Base64 hash is valid");
    SHA2 h = SHA2::ParseBase64(t);
    vc_assert(h.bits_.size() == SHA2::SIZE, "a hash is 32 bytes");
    vc_assert(h.known_bits() == (n == 43 ? 256 : 6 * n), "each Base64 digit makes six bits known");
    for (unsigned b = 0; b < 256 && b < 6 * n; b += 2)
        vc_assert((bit(h.bits_, b) << 1 | bit(h.bits_, b + 1)) == ((b64val(t[b / 6]) >> (4 - b % 6)) & 3), "the bits are those of the digits");
    String out = h.base64();
    vc_assert(out.size() == n, "a hash prints as many Base64 digits as are known");
    for (size_t i = 0; i < n && i < out.size(); ++i) vc_assert(out[i] == t[i], "Base64 digits print back");
    vc_cover("base64_roundtrip end");
}

PROVE(C18, bad_digit_hex) {
    size_t n = vc_split("n", vc_u8("n") % 65), k = vc_u8("k");
    const String t = vc_string("hex", n);
    vc_assume(k < n && !ishex(t[k]));
    SHA2 h = SHA2::ParseHex(t);
    vc_assert(!h.defined() && h.bits_.size() == SHA2::SIZE, "a text with a bad digit gives an undefined hash");
    vc_cover("bad_digit_hex end");
}
PROVE(C18, bad_digit_base64) {
    size_t n = vc_split("n", vc_u8("n") % 44), k = vc_u8("k");
    const String t = vc_string("b64", n);
    vc_assume(k < n && !isb64(t[k]));
    SHA2 h = SHA2::ParseBase64(t);
    vc_assert(!h.defined() && h.bits_.size() == SHA2::SIZE, "a text with a bad digit gives an undefined hash");
    vc_assert(!SHA2::valid(Slice{t}), "a text with a bad digit is not a valid hash");
    vc_cover("bad_digit_base64 end");
}
PROVE(C18, valid_size) {
    size_t n = vc_u32("n");
    vc_assume(n <= FSIZE_MAX && n != 43);
    const char* p = (const char*)vc_buf("text", n);
    vc_assert(!SHA2::valid(Slice{p, n}), "only 43 digits are a valid hash");
    vc_cover("valid_size end");
}
PROVE(C18, valid_padding) {
    const char* p = (const char*)vc_buf("text", 43);
    vc_assume((b64val(p[42]) & 3) != 0);
    vc_assert(!SHA2::valid(Slice{p, 43}), "a hash text with non-zero padding bits is not valid");
    vc_cover("valid_padding end");
}

PROVE(C18, matches) {
    uint32_t m = vc_split("m", vc_u16("m") % 257), more = vc_u16("more");
    vc_assume(m + more <= 256);
    SHA2 a, b;
    uint8_t diff[32];
    for (int i = 0; i < 32; ++i) { uint8_t x = vc_u8("x"), y = vc_u8("y"); a.bits_[i] = x; b.bits_[i] = y; diff[i] = x ^ y; }
    a.known_bits_ = m; b.known_bits_ = m + more;
    bool same = true, all = true;
    for (uint32_t i = 0; i < 32; ++i) {
        uint32_t lo = i * 8;
        uint8_t msk = m >= lo + 8 ? 0xff : m <= lo ? 0 : uint8_t(0xff00u >> (m - lo));
        same &= (diff[i] & msk) == 0; all &= diff[i] == 0;
    }
    vc_assert(a.matches(b) == same && b.matches(a) == same, "hashes match exactly when the bits known to both agree");
    vc_assert((a == b) == all && (a != b) == !all, "hash equality compares all bits");
    vc_cover("matches end");
}
