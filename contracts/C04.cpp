// C04: 128-bit database keys
#include "vc.h"
#include <iostream>
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
#include "db/key.cc"
using namespace ron;
static const uint64_t P60 = (uint64_t(1) << 60) - 1;

PROVE(C04, key_roundtrip) {
    uint64_t v = vc_u64("value"), o = vc_u64("origin");
    uint8_t form = vc_u8("form");
    Key k{Uuid{Word{v}, Word{o}}, FORM(form)};
    vc_assert(uint8_t(k.form()) == form, "a key keeps its form");
    Uuid id = k.id();
    vc_assert(id.value.as_u64 == (v & P60), "a key keeps the identifier's value");
    vc_assert((id.origin.as_u64 & P60) == (o & P60), "a key keeps the identifier's origin");
    vc_assert(id.version() == TIME && (id.origin.as_u64 >> 62) == 0 && id.variety() == 0, "a key's identifier is an event");
    vc_assert(k.id(DERIVED).version() == DERIVED && k.id(DERIVED).value == id.value, "a key's identifier takes the requested version");
    // an event identifier survives exactly
    Uuid e{Word{v & P60}, Word{(o & P60) | (uint64_t(TIME) << 60)}};
    vc_assert(Key(e, FORM(form)).id() == e, "an event identifier survives exactly");
    vc_cover("key_roundtrip end");
}

PROVE(C04, be_roundtrip) {
    Key k{uint64pair{vc_u64("k1"), vc_u64("k2")}};
    uint64pair be = k.be();
    Key b = Key::be(Slice{(const char*)&be, sizeof(be)});
    vc_assert(b == k && !(b != k), "a key survives serialisation");
    vc_assert(Key::SIZE == 16, "keys are 16 bytes");
    const unsigned char* p = (const unsigned char*)&be;
    for (int i = 0; i < 8; ++i) {
        vc_assert(p[i] == uint8_t(k.bits.first >> (56 - 8 * i)), "serialised keys are big-endian (first half)");
        vc_assert(p[8 + i] == uint8_t(k.bits.second >> (56 - 8 * i)), "serialised keys are big-endian (second half)");
    }
    vc_cover("be_roundtrip end");
}

PROVE(C04, byte_order) {
    Key a{uint64pair{vc_u64("a1"), vc_u64("a2")}}, b{uint64pair{vc_u64("b1"), vc_u64("b2")}};
    uint64pair x = a.be(), y = b.be();
    const unsigned char *p = (const unsigned char*)&x, *q = (const unsigned char*)&y;
    int cmp = 0;
    for (int i = 0; i < 16; ++i) cmp = cmp ? cmp : p[i] < q[i] ? -1 : p[i] > q[i] ? 1 : 0;
    vc_assert((a < b) == (cmp < 0), "key < is the byte order of serialised keys");
    vc_assert((a > b) == (cmp > 0), "key > is the byte order of serialised keys");
    vc_assert((a == b) == (cmp == 0) && (a != b) == (cmp != 0), "key == is byte equality");
    vc_cover("byte_order end");
}

PROVE(C04, semantic_order) {
    uint64_t av = vc_u64("av"), ao = vc_u64("ao"), bv = vc_u64("bv"), bo = vc_u64("bo");
    uint8_t af = vc_u8("af"), bf = vc_u8("bf");
    Key a{Uuid{Word{av}, Word{ao}}, FORM(af)}, b{Uuid{Word{bv}, Word{bo}}, FORM(bf)};
    uint64_t aop = ao & P60, bop = bo & P60, avp = av & P60, bvp = bv & P60;
    bool lt = af < bf || (af == bf && (aop < bop || (aop == bop && avp < bvp)));
    bool eq = af == bf && aop == bop && avp == bvp;
    vc_assert((a < b) == lt, "keys order by form, origin, value");
    vc_assert((a == b) == eq, "keys are equal exactly when form, origin and value agree");
    vc_assert(!(a < Key::ZERO), "no key sorts before the first key");
    vc_cover("semantic_order end");
}

PROVE(C04, form_uuid) {
    uint64_t v = vc_u64("value"), o = vc_u64("origin");
    Uuid f{Word{vc_u64("fv")}, Word{vc_u64("fo")}};
    Uuid id{Word{v}, Word{o}};
    Key k{id, f};
    vc_assert(k == Key(id, uuid2form(f)), "a key built from a form name uses that form's code");
    vc_cover("form_uuid end");
}
