// C19: hybrid timestamps
#include "vc.h"
#include <ctime>
#include <sys/time.h>
#ifndef VC_NATIVE
// assumed contract of gmtime: the civil fields of the moment, chronological order being the lexicographic order of the fields
static tm g_tm[2]; static int g_calls;
static tm* c_gmtime(const time_t* t) { return &g_tm[*t]; }
#define gmtime c_gmtime
#endif
#include "ron/uuid.cc"
#undef gmtime
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
using namespace ron;

struct Moment { int y, mo, d, h, mi, s; long ns; };
static Moment moment(int i) {
    Moment m;
    m.y = vc_u16("year"); m.mo = vc_u8("month"); m.d = vc_u8("day"); m.h = vc_u8("hour"); m.mi = vc_u8("minute"); m.s = vc_u8("second"); m.ns = vc_u32("nanos");
    if (vc_native()) { m.y = 2010 + m.y % 341; m.mo %= 12; m.d = 1 + m.d % 28; m.h %= 24; m.mi %= 60; m.s %= 60; m.ns %= 1000000000; }
    vc_assume(m.y >= 2010 && m.y <= 2350 && m.mo <= 11 && m.d >= 1 && m.d <= 31 && m.h <= 23 && m.mi <= 59 && m.s <= 60 && m.ns < 1000000000);
    return m;
}
static time_t seconds(const Moment& m, int i) {
    tm t{};
    t.tm_year = m.y - 1900; t.tm_mon = m.mo; t.tm_mday = m.d; t.tm_hour = m.h; t.tm_min = m.mi; t.tm_sec = m.s;
#ifdef VC_NATIVE
    return timegm(&t);
#else
    g_tm[i] = t; return i;
#endif
}
static int cmp(const Moment& a, const Moment& b) {
#define F(x) if (a.x != b.x) return a.x < b.x ? -1 : 1;
    F(y) F(mo) F(d) F(h) F(mi) F(s)
    long p = a.ns / 100, q = b.ns / 100;
    return p < q ? -1 : p > q;
}

PROVE(C19, monotone) {
    Moment a = moment(0), b = moment(1);
    time_t ta = seconds(a, 0), tb = seconds(b, 1);
    Word x = Uuid::HybridTime(ta, a.ns), y = Uuid::HybridTime(tb, b.ns);
    int c = cmp(a, b);
    vc_assert((x < y) == (c < 0) && (x == y) == (c == 0), "timestamps order as the moments do, to 100 ns");
    vc_assert((x.as_u64 >> 60) == 0, "a timestamp fits 60 bits");
    vc_cover("monotone end");
}
PROVE(C19, layout) {
    Moment a = moment(0);
    Word x = Uuid::HybridTime(seconds(a, 0), a.ns);
    uint64_t w = x.as_u64;
    vc_assert((w & 0xffffff) == uint64_t(a.ns) / 100 && ((w >> 24) & 63) == uint64_t(a.s) && ((w >> 30) & 63) == uint64_t(a.mi) && ((w >> 36) & 63) == uint64_t(a.h)
        && ((w >> 42) & 63) == uint64_t(a.d - 1) && (w >> 48) == uint64_t((a.y - 2010) * 12 + a.mo), "the fields of a moment sit in Base64-aligned digits");
    vc_cover("layout end");
}
