// C10: the frame parser survives any bytes
#include "vc.h"
#include "ron/text.hpp"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
#include "ron/text.cc"
#include "ron/text-builder.cc"
#include "ron/text-parser.cc"
#include "ron/cp-parser.cc"
using namespace ron;
using Cursor = TextFrame::Cursor;

PROVE(C10, first_op) {
    size_t n = vc_u32("n"); vc_assume(n <= FSIZE_MAX);
    const char* p = (const char*)vc_buf("text", n);
    Cursor c{Slice{p, n}};
    Status s = c.Next();
    if (s) vc_assert(c.op().size() >= 2, "a parsed op has an id and a reference");
    vc_cover("first_op end");
}
PROVE(C10, bnd) {
    size_t n = vc_u32("n"); vc_assume(n <= 8);
    const char* p = (const char*)vc_buf("text", n);
    Cursor c{Slice{p, n}};
    Status s = c.Next();
    if (s) vc_assert(c.op().size() >= 2, "a parsed op has an id and a reference");
    vc_cover("bnd end");
}
