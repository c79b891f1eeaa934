// C07: UTF-16
#include "vc.h"
#include "ron/encdec.hpp"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
using namespace ron;

static bool scalar(uint32_t cp) { return cp < 0xd800 || (cp >= 0xe000 && cp < 0x110000); }

PROVE(C07, append_read) {
    Codepoint cp = vc_u32("cp");
    vc_assume(scalar(cp));
    std::u16string s;
    char16_t before = vc_u16("before");
    s.push_back(before);
    utf16append(s, cp);
    vc_assert(s[0] == before, "appending keeps what was there");
    if (cp < 0x10000) vc_assert(s.size() == 2 && s[1] == cp, "a basic codepoint is one unit");
    else {
        vc_assert(s.size() == 3, "a supplementary codepoint is two units");
        vc_assert(s[1] == (0xd800 | ((cp - 0x10000) >> 10)) && s[2] == (0xdc00 | ((cp - 0x10000) & 1023)), "a supplementary codepoint is its surrogate pair");
    }
    const std::u16string& cs = s;
    std::u16string::const_iterator at = cs.begin(); ++at;
    Codepoint back = utf16read(at, cs.end());
    vc_assert(back == cp && at == cs.end(), "an appended codepoint reads back, consuming all its units");
    vc_cover("append_read end");
}

PROVE(C07, read_any) {
    size_t n = vc_u32("n"), i = vc_u32("i");
    vc_assume(i < n && n <= FSIZE_MAX);
    const uint16_t* p = (const uint16_t*)vc_buf("units", n * 2);
#ifdef VC_NATIVE
    const std::u16string s((const char16_t*)p, n);
#else
    const std::u16string s(std::u16string::vc_fixed{}, (const char16_t*)p, n);
#endif
    std::u16string::const_iterator at = s.begin() + i;
    Codepoint cp = utf16read(at, s.end());
    size_t used = at - s.begin() - i;
    uint16_t u = p[i];
    bool hi = u >= 0xd800 && u < 0xdc00, lo = u >= 0xdc00 && u < 0xe000;
    uint16_t v = hi && i + 1 < n ? p[i + 1] : 0;
    if (!hi && !lo) vc_assert(cp == u && used == 1, "a basic unit is a codepoint");
    else if (hi && i + 1 < n && v >= 0xdc00 && v < 0xe000) vc_assert(cp == 0x10000u + ((u & 1023u) << 10) + (v & 1023u) && used == 2, "a surrogate pair is a supplementary codepoint");
    else vc_assert(cp == CP_ERROR && used == 1, "an unpaired surrogate is an error");
    vc_cover("read_any end");
}
