// C05: code <-> name registries
#include "vc.h"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
#include <iostream>
#include "db/key.cc"
#include "db/const.hpp"
using namespace ron;

static bool known_form(uint8_t f) { return f < 20; }
static const char* FORM_NAMES[20] = {"zero", "yarn", "log", "tail", "patch", "span", "chain", "graph", "meta", "prev", "obj", "sha3", "vv", "lww", "rga", "mx", "json", "csv", "txt", "max"};

PROVE(C05, every_form_code) {
    uint8_t f = vc_u8("form");
    Uuid u = form2uuid(FORM(f));
    if (known_form(f)) {
        vc_assert(u != Uuid::FATAL && u.version() == NAME && u.origin.is_zero(), "a known form has a name");
        vc_assert(uint8_t(uuid2form(u)) == f, "code to name to code is the identity");
    } else vc_assert(u == Uuid::FATAL, "an unknown form code maps to the error name");
    vc_cover("every_form_code end");
}

PROVE(C05, every_form_name) {
    Uuid u{Word{vc_u64("value")}, Word{vc_u64("origin")}};
    FORM f = uuid2form(u);
    bool is = false; uint8_t which = 0;
    for (uint8_t i = 0; i < 20; ++i) if (form2uuid(FORM(i)) == u) { is = true; which = i; }
    if (is) vc_assert(uint8_t(f) == which, "a known name maps to its code");
    else if (u == Uuid::FATAL) vc_assert(f == ERROR_NO_FORM, "the error name maps to the error code");
    else vc_assert(f == ZERO_RAW_FORM, "an unknown name maps to the fallback code");
    vc_cover("every_form_name end");
}

PROVE(C05, form_texts) {
    for (uint8_t i = 0; i < 20; ++i) vc_assert(form2uuid(FORM(i)) == Uuid(FORM_NAMES[i]), "the name of a form code is the documented one");
    vc_cover("form_texts end");
}

static const char* MAP_NAMES[11] = {"chain", "meta", "op", "yarn", "sha2", "prev", "head", "obj", "csv", "txt", "json"};
PROVE(C05, every_map_code) {
    for (uint8_t i = 0; i < uint8_t(MAP_COUNT); ++i) {
        Uuid u = map2uuid(MAP(i));
        vc_assert(u == Uuid(MAP_NAMES[i]), "the name of a map code is the documented one");
        vc_assert(uuid2map(u) == MAP(i), "map code to name to code is the identity");
    }
    vc_assert(map2uuid(MAP_COUNT) == Uuid::FATAL, "the out-of-range map code maps to the error name");
    vc_cover("every_map_code end");
}
PROVE(C05, every_map_name) {
    Uuid u{Word{vc_u64("value")}, Word{vc_u64("origin")}};
    MAP m = uuid2map(u);
    bool is = false; uint8_t which = uint8_t(MAP_COUNT);
    for (uint8_t i = 0; i < uint8_t(MAP_COUNT); ++i) if (map2uuid(MAP(i)) == u) { is = true; which = i; }
    vc_assert(uint8_t(m) == which, "a name maps to its map code, any other name to none");
    vc_cover("every_map_name end");
}
