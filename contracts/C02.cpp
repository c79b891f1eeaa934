// C02: parsing an identifier is total and safe for every byte string of any length
#include "vc.h"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
using namespace ron;

static const char* g_text; static uint64_t g_n, g_k;
static bool b64(unsigned char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | (c == '_') | (c == '~'); }

// candidate loop invariants over the parser's locals; g_k is an arbitrary index
extern "C" bool inv_C02_digits(const char* a, const char* b) {
    uint64_t x = a - g_text, y = b - g_text;
    return (x > g_k) || (g_k >= y) || (g_k >= g_n) || b64(g_text[g_k]);
}
extern "C" bool inv_C02_digits_incl(const char* a, const char* b) {
    uint64_t x = a - g_text, y = b - g_text;
    return (x > g_k) || (g_k > y) || (g_k >= g_n) || b64(g_text[g_k]);
}
extern "C" bool invobj16_C02_slice(const Slice* s) {
    const char* a = (const char*)s->data();
    uint64_t lo = s->range().begin(), hi = s->range().end();
    if (a == nullptr) return lo == 0 && hi == 0;
    uint64_t x = a - g_text;
    return lo <= hi && x <= g_n && x + hi <= g_n && (g_k < x + lo || g_k >= x + hi || b64(g_text[g_k]));
}
extern "C" bool inv_C02_hex(unsigned char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'F')); }
extern "C" bool inv_C02_ver(unsigned char c) { return (c == '$') | (c == '%') | (c == '+') | (c == '-'); }

PROVE(C02, any_bytes) {
    uint32_t n = vc_u32("n");
    vc_assume(n <= FSIZE_MAX);
    const char* p = (const char*)vc_buf("text", n);
    g_text = p; g_n = n; g_k = vc_any("k");
    Uuid u{Slice{p, (size_t)n}};
    vc_assert(u == Uuid::FATAL || u.origin.flags() < 4, "a parsed identifier has a valid version or is the error value");
    vc_cover("any_bytes end");
}
