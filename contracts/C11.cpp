// C11: what the text builder writes, the text parser reads back
#include "vc.h"
#include "ron/text.hpp"
#include "ron/op.hpp"
#include "ron/frames.hpp"
#include "ron/uuid.cc"
#include "ron/uuid-parser.cc"
#include "ron/status.cc"
#include "ron/text.cc"
#include "ron/text-builder.cc"
#include "ron/text-parser.cc"
#include "ron/cp-parser.cc"
namespace ron {
static size_t digits(uint64_t w) { size_t n = 1; for (size_t i = 1; i < 10; ++i) n = (w & ((uint64_t(1) << (60 - 6 * i)) - 1)) ? i + 1 : n; return n; }
// any UUID; the layout of its text (lengths, variety, version) is a case split
static Uuid any_uuid() {
    uint64_t v = vc_u64("value"), o = vc_u64("origin");
    vc_assume(o >> 62 == 0);
    if (vc_native()) { v &= (uint64_t(15) << 60) | (~uint64_t(0) << (60 - 6 * (vc_u8("vlen") % 11))); o &= (uint64_t(15) << 60) | (~uint64_t(0) << (60 - 6 * (vc_u8("olen") % 11))); }
    vc_split("vlen", digits(v));
    vc_split("olen", digits(o));
    vc_split("variety", v >> 60 != 0);
    vc_split("version", o >> 60 & 3);
    return Uuid{Word{v}, Word{o}};
}
static Uuid any_event(int ver) {
    uint64_t v = vc_u64("value"), o = vc_u64("origin");
    vc_assume(o >> 62 == 0 && o >> 60 == uint64_t(ver));
    return Uuid{Word{v}, Word{o}};
}
static Uuid uw(uint64_t v, uint64_t o) { return Uuid{Word{v << 54}, Word{o << 54 | uint64_t(2) << 60}}; }
PROVE(C11, uuid_value) {
    Uuid id = uw(1, 10), ref = uw(0, 10), x = any_uuid();
    TextFrame::Builder b;
    b.AppendOp(Op{id, ref, x});
    const TextFrame f = b.Release();
    TextFrame::Cursor c = f.cursor();
    Status ok = c.Next();
    vc_assert(ok == Status::OK && c.valid(), "the op parses");
    vc_assert(c.op().size() == 3, "the op has one value");
    vc_assert(c.id() == id && c.ref() == ref, "same id, same reference");
    vc_assert(c.op()[2].type() == UUID && Uuid{c.atom(2)} == x, "same UUID value");
    vc_assert(c.Next() == Status::ENDOFFRAME, "no more ops");
    vc_cover("uuid end");
}
PROVE(C11, id) {
    Uuid id = any_uuid(), ref = uw(0, 10);
    TextFrame::Builder b;
    b.AppendOp(Op{id, ref, Integer(1)});
    const TextFrame f = b.Release();
    TextFrame::Cursor c = f.cursor();
    Status ok = c.Next();
    vc_assert(ok == Status::OK && c.valid(), "the op parses");
    vc_assert(c.op().size() == 3, "the op has one value");
    vc_assert(c.id() == id && c.ref() == ref, "same id, same reference");
    vc_assert(c.Next() == Status::ENDOFFRAME, "no more ops");
    vc_cover("id end");
}
PROVE(C11, ref) {
    Uuid id = uw(1, 10), ref = any_uuid();
    TextFrame::Builder b;
    b.AppendOp(Op{id, ref, Integer(1)});
    const TextFrame f = b.Release();
    TextFrame::Cursor c = f.cursor();
    Status ok = c.Next();
    vc_assert(ok == Status::OK && c.valid(), "the op parses");
    vc_assert(c.op().size() == 3, "the op has one value");
    vc_assert(c.id() == id && c.ref() == ref, "same id, same reference");
    vc_assert(c.Next() == Status::ENDOFFRAME, "no more ops");
    vc_cover("ref end");
}

static Atom chr(uint64_t cp) { return Atom::String(Codepoint(cp), Range{1, 1}, 0); }
static uint64_t any_cp(const char* name) {
    uint64_t c = vc_u32(name);
    if (vc_native()) c &= c >> 29 == 0 ? 0x7f : c >> 30 == 0 ? 0x7ff : c >> 31 == 0 ? 0xffff : ~0u;
    vc_assume(c > 0 && c <= 0x10ffff && !(c >= 0xd800 && c < 0xe000));
    return c;
}
// escapes and UTF-8 lengths
static uint64_t cp_case(uint64_t c) {
    return c >= 65536 ? 4 : c >= 2048 ? 3 : c >= 128 ? 2 : c == '\'' || c == '\\' ? 5 : c == '"' ? 6 : c < 16 && c >= 7 ? c : 1;
}
PROVE(C11, int_value) {
    Uuid id = uw(1, 10), ref = uw(0, 10);
    Integer v = Integer(vc_u64("v"));
    uint64_t mag = v < 0 ? 0 - uint64_t(v) : uint64_t(v), n = 1;
    if (vc_native()) { mag >>= vc_u8("bits") & 63; v = v < 0 ? Integer(0 - mag) : Integer(mag); }
    for (uint64_t p = 10, k = 1; k < 19; ++k, p *= 10) n = mag >= p ? k + 1 : n;
    vc_split("digits", n);
    vc_split("sign", v < 0);
    TextFrame::Builder b;
    b.AppendOp(Op{id, ref, v});
    const TextFrame f = b.Release();
    TextFrame::Cursor c = f.cursor();
    Status ok = c.Next();
    vc_assert(ok == Status::OK && c.valid(), "the op parses");
    vc_assert(c.op().size() == 3 && c.id() == id && c.ref() == ref, "same id, same reference, one value");
    vc_assert(c.op()[2].type() == INT && c.atom(2).value.as_integer == v, "same integer");
    vc_assert(c.Next() == Status::ENDOFFRAME, "no more ops");
    vc_cover("int end");
}
PROVE(C11, char_value) {
    Uuid id = uw(1, 10), ref = uw(0, 10);
    uint64_t x = any_cp("cp");
    vc_split("case", cp_case(x));
    Op op{id, ref};
    op.atoms_.push_back(chr(x));
    TextFrame::Builder b;
    b.AppendOp(op);
    const TextFrame f = b.Release();
    TextFrame::Cursor c = f.cursor();
    Status ok = c.Next();
    vc_assert(ok == Status::OK && c.valid(), "the op parses");
    vc_assert(c.op().size() == 3 && c.id() == id && c.ref() == ref, "same id, same reference, one value");
    Atom a = c.op()[2];
    vc_assert(a.type() == STRING, "a string value");
    if (!a.value.cp) vc_assert(c.NextCodepoint(a) == OK, "the string has a codepoint");
    vc_assert(a.value.cp == x, "same codepoint");
    vc_assert(c.NextCodepoint(a) != OK || !a.value.cp, "one codepoint");
    vc_assert(c.Next() == Status::ENDOFFRAME, "no more ops");
    vc_cover("char end");
}
// a string of two chars (not a span)
PROVE(C11, string_value) {
    Uuid id = uw(1, 10), ref = uw(0, 10);
    uint64_t x = any_cp("cp"), y = any_cp("cp2");
    vc_split("case", cp_case(x));
    vc_split("case2", cp_case(y));
    Op op{id, ref};
    op.strings_.push_back(Codepoint(x));
    op.strings_.push_back(Codepoint(y));
    op.atoms_.push_back(Atom::String(Codepoint(x), Range{1, 2}, 1));
    TextFrame::Builder b;
    b.AppendOp(op);
    const TextFrame f = b.Release();
    TextFrame::Cursor c = f.cursor();
    Status ok = c.Next();
    vc_assert(ok == Status::OK && c.valid(), "the op parses");
    vc_assert(c.op().size() == 3 && c.id() == id && c.ref() == ref, "same id, same reference, one value");
    Atom a = c.op()[2];
    vc_assert(a.type() == STRING, "a string value");
    if (!a.value.cp) vc_assert(c.NextCodepoint(a) == OK, "the string has a codepoint");
    vc_assert(a.value.cp == x, "same first codepoint");
    vc_assert(c.NextCodepoint(a) == OK && a.value.cp == y, "same second codepoint");
    vc_assert(c.NextCodepoint(a) != OK || !a.value.cp, "two codepoints");
    vc_assert(c.Next() == Status::ENDOFFRAME, "no more ops");
    vc_cover("string end");
}
// two chars in ops that follow each other: a span
PROVE(C11, char_span) {
    Uuid id = uw(1, 10), ref = uw(0, 10), id2 = id.inc();
    uint64_t x = any_cp("cp"), y = any_cp("cp2");
    vc_split("case", cp_case(x));
    vc_split("case2", cp_case(y));
    TextFrame::Builder b;
    Op op{id, ref}, op2{id2, id};
    op.atoms_.push_back(chr(x));
    op2.atoms_.push_back(chr(y));
    b.AppendOp(op);
    b.AppendOp(op2);
    const TextFrame f = b.Release();
    TextFrame::Cursor c = f.cursor();
    Status ok = c.Next();
    vc_assert(ok == Status::OK && c.valid(), "the first op parses");
    vc_assert(c.op().size() == 3 && c.id() == id && c.ref() == ref, "same id, same reference, one value");
    Atom a = c.op()[2];
    vc_assert(a.type() == STRING, "a string value");
    if (!a.value.cp) c.NextCodepoint(a);
    vc_assert(a.value.cp == x, "same codepoint");
    vc_assert(c.Next() == Status::OK, "the second op parses");
    vc_assert(c.op().size() == 3 && c.id() == id2 && c.ref() == id, "second op: same id, same reference, one value");
    a = c.op()[2];
    vc_assert(a.type() == STRING, "second op: a string value");
    if (!a.value.cp) c.NextCodepoint(a);
    vc_assert(a.value.cp == y, "second op: same codepoint");
    vc_assert(c.Next() == Status::ENDOFFRAME, "no more ops");
    vc_cover("span end");
}
// n ops with the same UUID value that follow each other: a span
PROVE(C11, uuid_span) {
    size_t n = vc_split("n", 2 + (vc_u8("n") & 15));
    Uuid ref = uw(0, 10), x = uw(vc_u8("x") & 63, vc_u8("y") & 63);
    TextFrame::Builder b;
    Uuid id = uw(1, 10), prev = ref;
    for (size_t i = 0; i < n; ++i) { b.AppendOp(Op{id, prev, x}); prev = id; id = id.inc(); }
    const TextFrame f = b.Release();
    TextFrame::Cursor c = f.cursor();
    id = uw(1, 10); prev = ref;
    for (size_t i = 0; i < n; ++i) {
        vc_assert(c.Next() == Status::OK, "the op parses");
        vc_assert(c.op().size() == 3 && c.id() == id && c.ref() == prev, "same id, same reference, one value");
        vc_assert(c.op()[2].type() == UUID && Uuid{c.atom(2)} == x, "same UUID value");
        prev = id; id = id.inc();
    }
    vc_assert(c.Next() == Status::ENDOFFRAME, "no more ops");
    vc_cover("uuid span end");
}
// one of several shapes of values
static void add_values(Op& op, size_t kind, uint64_t x) {
    switch (kind) {
        case 0: break;
        case 1: op.atoms_.push_back(Atom::Integer(Integer(x % 10))); break;
        case 2: op.atoms_.push_back(uw(x, 10)); break;
        case 3: op.atoms_.push_back(chr('a' + x % 26)); break;
        case 4: op.atoms_.push_back(chr('a' + x % 26)); op.atoms_.push_back(uw(x, 10)); break;
        case 5: op.atoms_.push_back(uw(x, 10)); op.atoms_.push_back(Atom::Integer(7)); break;
        default: op.atoms_.push_back(Atom::Integer(7)); op.atoms_.push_back(chr('x')); break;
    }
}
static void check_op(const TextFrame::Cursor& c, const Op& op) {
    vc_assert(c.id() == op.id(), "same id");
    vc_assert(c.ref() == op.ref(), "same reference");
    vc_assert(c.op().size() == op.atoms_.size(), "same number of values");
    for (size_t i = 2; i < op.atoms_.size(); ++i) {
        Atom a = c.op()[i], w = op.atoms_[i];
        vc_assert(a.type() == w.type(), "same type of value");
        if (w.type() == INT) vc_assert(c.atom(fsize_t(i)).value == w.value, "same integer");
        if (w.type() == UUID) vc_assert(a == w, "same UUID value");
        if (w.type() == STRING) {
            if (!a.value.cp) c.NextCodepoint(a);
            vc_assert(a.value.cp == w.value.cp, "same char");
        }
    }
}
// two ops, any relation of ids and references, any terminator between them
PROVE(C11, two_ops) {
    uint64_t d = vc_u8("d") & 63, e = vc_u8("e") & 63, x = vc_u8("x") & 63, y = vc_u8("y") & 63;
    static const uint8_t V1[12] = {0, 1, 2, 3, 4, 5, 6, 1, 3, 2, 5, 0}, V2[12] = {0, 1, 2, 3, 4, 5, 6, 3, 2, 5, 4, 6};
    size_t k = vc_split("case", vc_u16("case") % 1152);
    size_t v1 = V1[k % 12], v2 = V2[k % 12], i2 = k / 12 % 3, r1 = k / 36 % 2, r2 = k / 72 % 4, t = k / 288;
    Uuid id = uw(1, 10), id2 = i2 == 0 ? id.inc() : i2 == 1 ? uw(d, 10) : uw(1, 11);
    Uuid ref = r1 ? uw(0, 10) : Uuid::NIL;
    Uuid ref2 = r2 == 0 ? id : r2 == 1 ? Uuid::NIL : r2 == 2 ? ref : uw(e, 10);
    Op op{id, ref}, op2{id2, ref2};
    add_values(op, v1, x);
    add_values(op2, v2, y);
    TextFrame::Builder b;
    b.AppendOp(op);
    if (t != REDUCED) b.EndChunk(TERM(t));
    b.AppendOp(op2);
    const TextFrame f = b.Release();
    TextFrame::Cursor c = f.cursor();
    vc_assert(c.Next() == Status::OK, "the first op parses");
    check_op(c, op);
    if (t != REDUCED) vc_assert(c.term() == TERM(t), "same terminator");
    vc_assert(c.Next() == Status::OK, "the second op parses");
    check_op(c, op2);
    vc_assert(c.term() == RAW, "the last op ends its chunk");
    vc_assert(c.Next() == Status::ENDOFFRAME, "no more ops");
    vc_cover("two ops end");
}
}
