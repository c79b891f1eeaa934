From 42eefba5a781cb663eb3f097587410af6c53a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 01/13] fix: form2uuid compares a form code to the table's byte
 size, reading past the table for codes 20..159

---
 ron/form.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ron/form.hpp b/ron/form.hpp
index 2a2ed67..478633e 100644
--- a/ron/form.hpp
+++ b/ron/form.hpp
@@ -108,7 +108,7 @@ inline FORM uuid2form(Uuid u) {
 }
 
 inline Uuid form2uuid(FORM form) {
-    if (form < sizeof(FORMS)) {
+    if (form < sizeof(FORMS) / sizeof(FORMS[0])) {
         return Uuid{FORMS[form], 0};
     } else {
         return Uuid::FATAL;
-- 
2.43.0


From 6a4da0dbb69c9c73d6d0eb2236c1946b4fcce6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 02/13] fix: Slice::str() takes the buffer up to a NUL and the
 end offset as a count instead of the viewed bytes

---
 ron/slice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ron/slice.hpp b/ron/slice.hpp
index 78aba93..307bf3c 100644
--- a/ron/slice.hpp
+++ b/ron/slice.hpp
@@ -207,8 +207,8 @@ class Slice {
     }
 
     inline String str() const {
-        return String{reinterpret_cast<const String::value_type*>(buf_),
-                      range_.begin(), range_.end()};
+        return String{reinterpret_cast<const String::value_type*>(begin()),
+                      size()};
     }
 
     inline Range range_of(Slice sub) const {
-- 
2.43.0


From d70c3d581d66602b9ad2899e8fcac6abad95d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:54 +0000
Subject: [PATCH 03/13] fix: SHA2 text parsing decodes no digits and the bit
 encoder drops a trailing partial digit

---
 ron/encdec.hpp |  9 +++++++++
 ron/hash.hpp   | 16 ++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 986b18f..3f2c2d9 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -25,6 +25,15 @@ void encode(String& coded, Slice raw, int bit_size) {
             coded.push_back(coding[(bits >> bc) & MASK]);
         }
     }
+    if (bit_size > 0) {  // the last byte is partial
+        bits <<= bit_size;
+        bc += bit_size;
+        bits |= *raw >> (8 - bit_size);
+        while (bc >= bit_width) {
+            bc -= bit_width;
+            coded.push_back(coding[(bits >> bc) & MASK]);
+        }
+    }
     if (bc > 0) {
         bits <<= bit_width - bc;
         coded.push_back(coding[bits & MASK]);
diff --git a/ron/hash.hpp b/ron/hash.hpp
index 52b87e4..b25bbed 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -64,9 +64,11 @@ struct SHA2 {
         SHA2 ret;
         assert(hash.size() <= HEX_SIZE);
         uint32_t b = uint32_t(hash.size()) << 2;
-        if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<4, ABC16>(ret.bits_, hash, ret.known_bits_))
-            ret.known_bits_ = b;
+        String raw;
+        if (!decode<4, ABC16>(raw, hash, b)) return ret;
+        raw.resize(SIZE, 0);
+        ret.bits_ = raw;
+        ret.known_bits_ = b > BIT_SIZE ? BIT_SIZE : b;
         return ret;
     }
 
@@ -74,9 +76,11 @@ struct SHA2 {
         SHA2 ret;
         assert(hash.size() <= BASE64_SIZE);
         uint32_t b = uint32_t(hash.size()) * 6;
-        if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<6, ABC64>(ret.bits_, hash, ret.known_bits_))
-            ret.known_bits_ = b;
+        String raw;
+        if (!decode<6, ABC64>(raw, hash, b)) return ret;
+        raw.resize(SIZE, 0);
+        ret.bits_ = raw;
+        ret.known_bits_ = b > BIT_SIZE ? BIT_SIZE : b;
         return ret;
     }
 
-- 
2.43.0


From 1ee308b3ff1b139e5a0cfc0a4ba77cda7eb9c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:05 +0000
Subject: [PATCH 04/13] fix: inc_stack iterator advance skips spans instead of
 elements and ignores the offset

---
 ron/inc_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ron/inc_stack.hpp b/ron/inc_stack.hpp
index 1e7a893..14d4621 100644
--- a/ron/inc_stack.hpp
+++ b/ron/inc_stack.hpp
@@ -42,11 +42,13 @@ class inc_stack {
         }
         void operator+=(len_t advance) {
             while (advance > 0) {
-                if (i_->size <= advance) {
-                    advance -= i_->size;
+                len_t rest = i_->size - off_;
+                if (rest <= advance) {
+                    advance -= rest;
+                    off_ = 0;
                     ++i_;
                 } else {
-                    i_ += advance;
+                    off_ += advance;
                     advance = 0;
                 }
             }
-- 
2.43.0


From 096d628f9f9ed07bd0c2191943d685ea0780af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:22 +0000
Subject: [PATCH 05/13] fix: UTF-16 surrogate pairs lack the 0x10000 offset;
 reading a truncated pair runs past the end

---
 ron/encdec.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 3f2c2d9..02eb739 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -159,9 +159,10 @@ inline void utf8esc_append(String& to, Codepoint cp) {
 }
 
 inline void utf16append(std::u16string& to, Codepoint cp) {
-    if (cp < 0xd7ff || (cp < 0x10000 && cp >= 0xe000)) {
+    if (cp < 0x10000) {
         to.push_back(static_cast<char16_t>(cp));
     } else {
+        cp -= 0x10000;
         to.push_back(static_cast<char16_t>(0xd800 + (cp >> 10)));
         to.push_back(static_cast<char16_t>(0xdc00 + (cp & 1023)));
     }
@@ -222,12 +223,18 @@ inline Codepoint utf16read(std::u16string::const_iterator& at,
     if (ret >= 0xe000) {
         return ret;
     }
-    ret -= 0xd800;
+    if (ret >= 0xdc00 || at == end) {  // an unpaired surrogate
+        return CP_ERROR;
+    }
     uint16_t next = *at;
+    if (next < 0xdc00 || next >= 0xe000) {
+        return CP_ERROR;
+    }
+    ret -= 0xd800;
     ret <<= 10;
     ret |= next - 0xdc00;
     ++at;
-    return ret;
+    return ret + 0x10000;
 }
 
 void utf8utf16(std::u16string& to, const String& from);
-- 
2.43.0


From 8c1a3735ac2f4b099eaa4d550f3b9ac2a733b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:22 +0000
Subject: [PATCH 06/13] fix: 18-digit signed and INT64_MIN integers are
 rejected or overflow; WriteInt's buffer is too small

---
 ron/text-builder.cc |  2 +-
 ron/text.cc         | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 9a9c9ac..7609ba0 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -37,7 +37,7 @@ Result TextFrame::Builder::WriteValues(const Cursor& cur) {
 }
 
 void TextFrame::Builder::WriteInt(int64_t value) {
-    char tmp[20];
+    char tmp[24];
     int len = sprintf(tmp, "%" PRId64, value);
     data_.append(tmp, static_cast<size_t>(len));
 }
diff --git a/ron/text.cc b/ron/text.cc
index 7ff30d0..142fcc1 100644
--- a/ron/text.cc
+++ b/ron/text.cc
@@ -15,13 +15,14 @@ Result TextFrame::Cursor::ParseInteger(Atom& a) const {
     } else if (*i == '+') {
         i++;
     }
-    int64_t& ret = a.value.as_integer;
+    uint64_t ret = 0;  // unsigned: INT64_MIN has no positive counterpart
     while (i < range.end()) {
         ret *= 10;
         ret += *i - '0';
         i++;
     }
-    if (neg) ret = -ret;
+    if (neg) ret = 0 - ret;
+    a.value.as_integer = int64_t(ret);
     return OK;
 }
 
@@ -69,19 +70,21 @@ Status TextFrame::Split(std::vector<TextFrame>& to) {
 
 bool TextFrame::Cursor::int_too_big(const Slice& data) {
     static const char* MAXINTSTR = "9223372036854775807";
+    static const char* MININTSTR = "9223372036854775808";
     if (data.size() < 19) {
         return false;
     }
     CharRef mem = data.begin();
     size_t sz = data.size();
+    bool neg = *mem == '-';
     if (*mem == '-' || *mem == '+') {
         ++mem;
         --sz;
     }
-    if (sz > 19) {
-        return true;
+    if (sz != 19) {
+        return sz > 19;
     }
-    int res = memcmp(mem, MAXINTSTR, sz);
+    int res = memcmp(mem, neg ? MININTSTR : MAXINTSTR, sz);
     return res > 0;
 }
 
-- 
2.43.0


From 877a8da244351cad3c0635d970f78069a63aa35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 07/13] fix: MaxRDT compares integers and floats as numbers
 (negative ones won as unsigned)

---
 rdt/max.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rdt/max.hpp b/rdt/max.hpp
index 45cd5a8..2431396 100644
--- a/rdt/max.hpp
+++ b/rdt/max.hpp
@@ -19,7 +19,16 @@ class MaxRDT {
             return b.id() > a.id();
         }
         if (b.op().size() == 2) return false;
-        return static_cast<Uuid>(a.atom(2)) < static_cast<Uuid>(b.atom(2));
+        Atom av = a.atom(2), bv = b.atom(2);
+        if (av.type() != bv.type()) return av.type() < bv.type();
+        switch (av.type()) {
+            case INT:
+                return av.value.as_integer < bv.value.as_integer;
+            case FLOAT:
+                return av.value.as_float < bv.value.as_float;
+            default:
+                return static_cast<Uuid>(av) < static_cast<Uuid>(bv);
+        }
     }
 
    public:
-- 
2.43.0


From 0ba3420e47c46414753157ccfc8435788a5de5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 08/13] fix: MaxRDT repeated the root op of an object without
 values

---
 rdt/max.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt/max.hpp b/rdt/max.hpp
index 2431396..80417e5 100644
--- a/rdt/max.hpp
+++ b/rdt/max.hpp
@@ -49,7 +49,7 @@ class MaxRDT {
                 inputs[i].Next();
             }
         }
-        output.AppendOp(max);
+        if (max.valid() && max.ref() != MAX_FORM_UUID) output.AppendOp(max);
         output.EndChunk();
         return Status::OK;
     }
-- 
2.43.0


From 14531bcd3b8ec9590336700c566972b5c460795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 09/13] fix: an op continuing the span of an ended chunk was
 lost

---
 ron/text.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index 4d7118c..8b5c79c 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -241,7 +241,7 @@ class TextFrame {
 
         template <class Cursor2>
         inline bool is_same_span(const Cursor2& cur) const {
-            if (cur.ref() != prev_id_) {
+            if (!span_size_ || cur.ref() != prev_id_) {
                 return false;
             }
             if (cur.id() != prev_id_.inc()) {
-- 
2.43.0


From 350895eec9ba51c7359fa2bc092bd9f5281deaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 10/13] fix: a char span scrambled its first char if it was
 escaped or multibyte

---
 ron/text.hpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index 8b5c79c..c384737 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -255,19 +255,8 @@ class TextFrame {
             if (prev_2_.type() == STRING) {
                 Atom a = cur.op()[2];
                 if (span_size_ == 1) {
-                    char ret[8];
-                    fsize_t retc{0};
-                    data_.pop_back();
-                    while (data_.back() != ATOM_PUNCT[STRING]) {
-                        ret[retc++] = data_.back();
-                        data_.pop_back();
-                    }
-                    data_.pop_back();
-                    Write('(');
-                    Write(ATOM_PUNCT[STRING]);
-                    for (fsize_t i = 0; i < retc; ++i) {
-                        data_.push_back(ret[i]);
-                    }
+                    data_.pop_back();  // the closing quote
+                    data_.insert(data_.rfind(" '") + 1, 1, '(');
                 }
                 if (!a.value.cp) {
                     cur.NextCodepoint(a);
-- 
2.43.0


From d2ea814f64bf456e9f369e527b1565a24f5659c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 11/13] fix: a form feed was written as \\f, which the grammar
 does not accept

---
 ron/encdec.hpp      | 4 ----
 ron/text-builder.cc | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 02eb739..e248dea 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -123,10 +123,6 @@ inline void utf8esc_append(String& to, Codepoint cp) {
                 to.push_back(ESC);
                 to.push_back('b');
                 break;
-            case '\f':
-                to.push_back(ESC);
-                to.push_back('f');
-                break;
             case '\n':
                 to.push_back(ESC);
                 to.push_back('n');
diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 7609ba0..4dcf25d 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -82,10 +82,6 @@ void TextFrame::Builder::escape(String& to, const Slice& buf) {
                 to.push_back(ESC);
                 to.push_back('b');
                 break;
-            case '\f':
-                to.push_back(ESC);
-                to.push_back('f');
-                break;
             case '\n':
                 to.push_back(ESC);
                 to.push_back('n');
-- 
2.43.0


From dcf5bfb7e9da0b707f9a0cbc64ee34e9123ba81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 12/13] fix: a UUID whose text reads as a float (1e5, 1E+2) was
 written without its mark

---
 ron/uuid.cc  | 14 ++++++++++++++
 ron/uuid.hpp |  5 ++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/ron/uuid.cc b/ron/uuid.cc
index 57f0dbe..af019d7 100644
--- a/ron/uuid.cc
+++ b/ron/uuid.cc
@@ -44,6 +44,20 @@ bool Word::is_all_digits() const {
     return true;
 }
 
+bool Uuid::is_ambiguous() const {
+    if (origin.is_zero() && value.is_all_digits()) return true;
+    ron::String text = str();
+    size_t i = 0;
+    while (i < text.size() && isdigit(text[i])) ++i;
+    if (i == 0 || i == text.size()) return i > 0;
+    if (text[i] != 'e' && text[i] != 'E') return false;
+    ++i;
+    if (i < text.size() && (text[i] == '+' || text[i] == '-')) ++i;
+    size_t exp = i;
+    while (i < text.size() && isdigit(text[i])) ++i;
+    return i > exp && i == text.size();
+}
+
 void Uuid::write_base64(ron::String& ret) const {
     size_t len = 0;
     int vrt = variety();
diff --git a/ron/uuid.hpp b/ron/uuid.hpp
index b6b0c23..9d4f7fd 100644
--- a/ron/uuid.hpp
+++ b/ron/uuid.hpp
@@ -210,9 +210,8 @@ struct Uuid : public Atom {
     void write_base64(ron::String& to) const;
     ron::String str() const;
     inline bool zero() const { return value == ZERO; }
-    inline bool is_ambiguous() const {
-        return origin.is_zero() && value.is_all_digits();
-    }
+    /** Whether the bare text can be taken for a number (12, 1e5, 1E+2). */
+    bool is_ambiguous() const;
     inline bool is_error() const { return origin == Word::MAX_VALUE; }
     static Uuid Time(Word value, Word origin) {
         return Uuid{value, (uint64_t(origin) & Word::PAYLOAD_BITS) |
-- 
2.43.0


From 170474cd7bc1490627f9c87f927d9fc69eb3c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 13/13] fix: an op with the next id but another ref was written
 as a spec starting with the ref, which does not parse

---
 ron/text.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index c384737..d4e70c9 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -172,13 +172,14 @@ class TextFrame {
         void WriteSpec(Uuid id, Uuid ref) {
             WriteTerm();
             span_size_ = 1;
-            bool seq_id = id == prev_id_.inc();
-            if (!seq_id) {
+            bool seq_ref = ref == prev_id_;
+            // a spec can not start with a ref
+            if (!seq_ref || id != prev_id_.inc()) {
                 Write(SPEC_PUNCT[EVENT]);
                 WriteUuid(id);
             }
-            if (ref != prev_id_) {
-                if (!seq_id) Write(' ');
+            if (!seq_ref) {
+                Write(' ');
                 Write(SPEC_PUNCT[REF]);
                 WriteUuid(ref);
             }
-- 
2.43.0

