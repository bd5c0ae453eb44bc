From 983ffb9886e748e09ff0917879934877e1310b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:52 +0000
Subject: [PATCH 01/31] fix: accept an immediate in .num_gprs

---
 src/options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/options.cpp b/src/options.cpp
index 63805a6..7208d9f 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -42,7 +42,7 @@ void context::parse_option(token& token)
         parse_type();
     } else if (equal(token, ".num_gprs")) {
         token = tokenize();
-        if (token.type == token_type::immediate) {
+        if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
         num_gprs = static_cast<int>(token.data.immediate);
-- 
2.43.0


From 3f992df00619f4ef9f29689d3a5b8dda9f62d8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:55 +0000
Subject: [PATCH 02/31] fix: pad dksh code to 256 bytes without adding an extra
 block

---
 src/write.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write.cpp b/src/write.cpp
index aaeedb6..9252c4a 100644
--- a/src/write.cpp
+++ b/src/write.cpp
@@ -22,7 +22,8 @@ std::vector<uint64_t> context::binary(std::span<const uint64_t> code) const
     }
     result.insert(result.end(), code.begin(), code.end());
     if (is_dksh) {
-        result.resize(result.size() + 32 - code.size() % 32);
+        // the code section is aligned to 256 bytes, as written in the header
+        result.resize((result.size() + 31) / 32 * 32);
     }
     return result;
 }
-- 
2.43.0


From 47f8b5caefb91a3c3eb3542b83ef5dcf1fa1dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:01 +0000
Subject: [PATCH 03/31] fix: reject 1 << 20 in 20-bit unsigned immediates

---
 src/operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index ecc6dda..6468f5a 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -89,7 +89,7 @@ inline error assemble_uint(context& ctx, opcode& op, token& token, int64_t max_s
 DEFINE_OPERAND(uimm_extended)
 {
     uint64_t value;
-    CHECK(convert_integer(token, 0, 1ULL << 20, &value));
+    CHECK(convert_integer(token, 0, max_bits(20), &value));
     if (value >= 0x80000) {
         value -= 0x80000;
         op.add_bits(1ULL << 56);
-- 
2.43.0


From b359e0cd1c31f7c262a504e1cff682b7e47d80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:06 +0000
Subject: [PATCH 04/31] fix: terminate keyword tables that were read out of
 bounds

---
 src/operand.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 6468f5a..640182e 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -686,7 +686,7 @@ namespace stg
     DEFINE_OPERAND(size)
     {
         static const char* table[] = {
-            "U8", "S8", "U16", "S16", "32", "64", "128",
+            "U8", "S8", "U16", "S16", "32", "64", "128", nullptr,
         };
         std::optional<uint64_t> size = find_in_table(token, table, ".");
         if (size) {
@@ -1207,7 +1207,7 @@ namespace ldg
 {
     DEFINE_OPERAND(size)
     {
-        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U"};
+        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U", nullptr};
         static const char* msg = "expected .U8, .S8, .U16, .S16, .32, .64, .128 or .U.128";
 
         const std::optional result = find_in_table(token, table, ".");
@@ -1496,7 +1496,7 @@ template <int address>
 DEFINE_OPERAND(tex_type)
 {
     static const char* types[]{
-        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE",
+        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE", nullptr,
     };
     const std::optional<uint64_t> result = find_in_table(token, types, "");
     if (!result) {
-- 
2.43.0


From 9c6f37cee12606bdd7d8859d87b3f1139539b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:09 +0000
Subject: [PATCH 05/31] fix: don't match a lone dot with the holes of keyword
 tables

---
 src/helper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helper.cpp b/src/helper.cpp
index ebb0110..93930f2 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -78,6 +78,10 @@ std::optional<uint64_t> find_in_table(const token& token, const char* const* tab
         }
         text = text.substr(std::size(prefix));
     }
+    if (text.empty()) {
+        // empty entries are holes in the table, they can't be written
+        return {};
+    }
 
     for (size_t i = 0; table[i]; ++i) {
         if (text.compare(table[i]) != 0) {
-- 
2.43.0


From 714c02a699e48a577a9546eddb1f35e437cfb58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:42 +0000
Subject: [PATCH 06/31] fix: don't read a lone R as R0 nor swallow the
 character after a lone P

---
 src/context.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index dc82453..ae4fd60 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -183,7 +183,7 @@ token context::tokenize()
             token.data.regster = ZERO_REGISTER;
             return token;
         }
-        bool invalid_register = false;
+        bool invalid_register = is_separator(*text);
         while (!is_separator(*text)) {
             if (!is_decimal(*text)) {
                 invalid_register = true;
@@ -210,9 +210,12 @@ token context::tokenize()
             return token;
         }
     }
-    do {
+    if (text == contents) {
         next();
-    } while (!is_separator(*text));
+    }
+    while (!is_separator(*text)) {
+        next();
+    }
 
     if (text[-1] == ':') {
         // ignore labels
-- 
2.43.0


From 51e850423ce7ce688faa6abf31342d9005e126a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:48 +0000
Subject: [PATCH 07/31] fix: encode SUST.D.BA in its own bit

---
 src/table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index cb6eff2..cbd5e37 100644
--- a/src/table.h
+++ b/src/table.h
@@ -254,8 +254,8 @@ const insn table[]{
     INSN(0x3890000000000000ULL, 0, "RRO", rro::mode, dgpr<0>, comma, fimm, post_neg<45>, post_abs<49>),
     INSN(0xEB20000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
     INSN(0xEB28000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
-    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
-    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
+    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
+    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
     INSN(0xEB08000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
-- 
2.43.0


From f91d0be9ea61b323c39168ab86fe5a4af000a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:53 +0000
Subject: [PATCH 08/31] fix: use the opcode of the constant buffer, register
 form of ICMP

---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index cbd5e37..de18855 100644
--- a/src/table.h
+++ b/src/table.h
@@ -179,7 +179,7 @@ const insn table[]{
     INSN(0x38C0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma,          uimm_extended, post_neg<50>, comma, neg<49>, sgpr<39>),
     INSN(0x5B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<20>, comma, sgpr<39>),
     INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<39>, comma, cbuf),
-    INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
+    INSN(0x4B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
     INSN(0x3640000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, imm,      comma, sgpr<39>),
     INSN(0x5C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
-- 
2.43.0


From 0afadef69cf8a9bfb34d781535c35a5d2ab2552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:57 +0000
Subject: [PATCH 09/31] fix: don't mix the destination sign in the I2I and I2F
 source format

---
 src/operand.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 640182e..37e0a18 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1252,7 +1252,7 @@ namespace i2f
         static const char* bytes[] = {"B0", "B1", "B2", "B3", nullptr};
         static const char* shorts[] = {"H0", "INVALIDSIZE1", "H1", "INVALIDSIZE3", nullptr};
 
-        const uint64_t type = (op.value >> 10) & 0b111;
+        const uint64_t type = (op.value >> 10) & 0b11;
         const char* const* const table = type == 1 ? shorts : bytes;
         const std::optional result = find_in_table(token, table, ".");
         if (result) {
@@ -1289,7 +1289,7 @@ namespace i2i
         static const char* bytes[] = {"B0", "B1", "B2", "B3", nullptr};
         static const char* shorts[] = {"H0", "INVALIDSIZE1", "H1", "INVALIDSIZE3", nullptr};
 
-        const uint64_t type = (op.value >> 10) & 0b111;
+        const uint64_t type = (op.value >> 10) & 0b11;
         const char* const* const table = type == 1 ? shorts : bytes;
         const std::optional result = find_in_table(token, table, ".");
         if (result) {
-- 
2.43.0


From 0bfc8a1c8e75e6bec529d54fff41f083e2b2cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:02 +0000
Subject: [PATCH 10/31] fix: reject byte selectors on 32-bit video sources

---
 src/operand.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 37e0a18..021ee28 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1437,9 +1437,11 @@ namespace video
     {
         static const char* bytes[] = {"B0", "B1", "B2", "B3", nullptr};
         static const char* shorts[] = {"H0", "H1", nullptr};
+        static const char* words[] = {nullptr};
 
-        const uint64_t type = (op.value >> type_address) & 0b111;
-        const char* const* const table = type == 2 ? shorts : bytes;
+        // selectors and formats share bits, 32-bit sources have nothing to select
+        const uint64_t type = (op.value >> type_address) & 0b11;
+        const char* const* const table = type == 3 ? words : type == 2 ? shorts : bytes;
         const std::optional result = find_in_table(token, table, ".");
         if (result) {
             token = ctx.tokenize();
-- 
2.43.0


From d6c7b0b86caaaa8fdcfa1ecd8bcafb19256ae157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:07 +0000
Subject: [PATCH 11/31] fix: reject @!PT in instructions without predicated
 execution

---
 src/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 72567ed..02923e6 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -108,7 +108,7 @@ static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& in
     op.add_bits(insn.opcode);
 
     token token = ctx.tokenize();
-    if ((insn.flags & NO_PRED) && (~op.value & (7ULL << 16))) {
+    if ((insn.flags & NO_PRED) && ((op.value >> 16) & 0xF) != TRUE_PREDICATE) {
         return {fail(token, "%s does not support predicated execution", insn.mnemonic), 0};
     }
     int score = 1;
-- 
2.43.0


From 21c78919fba6e0c9c062eedfd723abe56ea9677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:39 +0000
Subject: [PATCH 12/31] fix: reject TLDS.LL types that have no such encoding

---
 src/operand.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 021ee28..5131a35 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1618,6 +1618,9 @@ DEFINE_OPERAND(tlds_type)
         }
         break;
     case 2: // 3D
+        if (ll) {
+            return fail(token, "LL can't be used in 3D");
+        }
         if (aoffi) {
             return fail(token, "AOFFI can't be used in 3D");
         }
@@ -1627,6 +1630,9 @@ DEFINE_OPERAND(tlds_type)
         mode = 7;
         break;
     case 3: // ARRAY_2D
+        if (ll) {
+            return fail(token, "LL can't be used in ARRAY_2D");
+        }
         if (aoffi) {
             return fail(token, "AOFFI can't be used in ARRAY_2D");
         }
-- 
2.43.0


From 03cb06c47e52cb61b164d9202231eac25c1dc4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:44 +0000
Subject: [PATCH 13/31] fix: reject negations that collide with or alias .PO

---
 src/operand.h | 25 +++++++++++++++++++++++++
 src/table.h   | 18 +++++++++---------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 5131a35..d53ecf0 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -389,6 +389,31 @@ DEFINE_OPERAND(po)
     return {};
 }
 
+// negation of an operand whose bit, together with the other operand's negation, encodes .PO
+template <int address, int other_address>
+DEFINE_OPERAND(neg_po)
+{
+    if (token.type != token_type::minus) {
+        return {};
+    }
+    if (op.value & ((1ULL << address) | (1ULL << other_address))) {
+        return fail(token, "operand can't be negated, it would collide with .PO");
+    }
+    return neg<address>(ctx, token, op);
+}
+
+template <int address, int other_address>
+DEFINE_OPERAND(post_neg_po)
+{
+    if (!equal(token, ".NEG")) {
+        return {};
+    }
+    if (op.value & ((1ULL << address) | (1ULL << other_address))) {
+        return fail(token, "operand can't be negated, it would collide with .PO");
+    }
+    return post_neg<address>(ctx, token, op);
+}
+
 template <int address>
 DEFINE_FLAG(sh, ".SH", address);
 
diff --git a/src/table.h b/src/table.h
index de18855..24c2dfb 100644
--- a/src/table.h
+++ b/src/table.h
@@ -170,10 +170,10 @@ const insn table[]{
     INSN(0x5CF0000000000000ULL, 0, "R2P", p2r::mode<40>, comma, sgpr<8>, byte_selector<41>, comma, sgpr<20>),
     INSN(0x4CF0000000000000ULL, 0, "R2P", p2r::mode<40>, comma, sgpr<8>, byte_selector<41>, comma, cbuf),
     INSN(0x38F0000000000000ULL, 0, "R2P", p2r::mode<40>, comma, sgpr<8>, byte_selector<41>, comma, imm),
-    INSN(0x5C10000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, sgpr<20>),
-    INSN(0x4C10000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, cbuf),
-    INSN(0x3810000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, imm, post_neg<48>),
-    INSN(0x1C00000000000000ULL, 0, "IADD32I", po<55, 56>, sat<54>, x<53>, dgpr<0>, cc<52>, comma, neg<56>, sgpr<8>, comma, simm32),
+    INSN(0x5C10000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, neg_po<49, 48>, sgpr<8>, comma, neg_po<48, 49>, sgpr<20>),
+    INSN(0x4C10000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, neg_po<49, 48>, sgpr<8>, comma, neg_po<48, 49>, cbuf),
+    INSN(0x3810000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, neg_po<49, 48>, sgpr<8>, comma, imm, post_neg_po<48, 49>),
+    INSN(0x1C00000000000000ULL, 0, "IADD32I", po<55, 56>, sat<54>, x<53>, dgpr<0>, cc<52>, comma, neg_po<56, 55>, sgpr<8>, comma, simm32),
     INSN(0x5CC0000000000000ULL, 0, "IADD3", iadd3::shift, x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>, iadd3::half<35>, comma, neg<50>, sgpr<20>, iadd3::half<33>,   comma, neg<49>, sgpr<39>, iadd3::half<31>),
     INSN(0x4CC0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma, neg<50>, cbuf,                        comma, neg<49>, sgpr<39>),
     INSN(0x38C0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma,          uimm_extended, post_neg<50>, comma, neg<49>, sgpr<39>),
@@ -184,9 +184,9 @@ const insn table[]{
     INSN(0x5C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
     INSN(0x3820000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, imm,      comma, pred<39, true>),
-    INSN(0x5C18000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, sgpr<20>, comma, uinteger<5, 39>),
-    INSN(0x4C18000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, cbuf,     comma, uinteger<5, 39>),
-    INSN(0x3818000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, imm,      comma, uinteger<5, 39>),
+    INSN(0x5C18000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, neg_po<49, 48>, sgpr<8>, comma, neg_po<48, 49>, sgpr<20>, comma, uinteger<5, 39>),
+    INSN(0x4C18000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, neg_po<49, 48>, sgpr<8>, comma, neg_po<48, 49>, cbuf,     comma, uinteger<5, 39>),
+    INSN(0x3818000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, neg_po<49, 48>, sgpr<8>, comma, neg_po<48, 49>, imm,      comma, uinteger<5, 39>),
     INSN(0x5B50000000000000ULL, 0, "ISET", bf<44>, integer_compare<49>, int_sign, x<43>, bop<45>, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4B50000000000000ULL, 0, "ISET", bf<44>, integer_compare<49>, int_sign, x<43>, bop<45>, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
     INSN(0x3650000000000000ULL, 0, "ISET", bf<44>, integer_compare<49>, int_sign, x<43>, bop<45>, dgpr<0>, cc, comma, sgpr<8>, comma, imm,      comma, pred<39, true>),
@@ -261,8 +261,8 @@ const insn table[]{
     INSN(0xEB00000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
     INSN(0xEB08000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, uinteger<13, 36>),
     INSN(0x50D8000000000000ULL, 0, "VOTE", vote::operation, dgpr<0>, comma, pred<45, false>, comma, pred<39, true>),
-    INSN(0x5F04000000000000ULL, 0, "VMAD", video::src_format<37, 48>, video::src_format<29, 49>, po<53, 54>, vmad::scale, sat<55>, dgpr<0>, cc, comma, neg<54>, sgpr<8>, video::selector<36, 37>, comma, sgpr<20>, video::selector<28, 29>, comma, neg<53>, sgpr<39>),
-    INSN(0x5F00000000000000ULL, 0, "VMAD", video::src_format<37, 48>, video::imm_format<29, 49>, po<53, 54>, vmad::scale, sat<55>, dgpr<0>, cc, comma, neg<54>, sgpr<8>, video::selector<36, 37>, comma, uinteger<16, 20>,                  comma, neg<53>, sgpr<39>),
+    INSN(0x5F04000000000000ULL, 0, "VMAD", video::src_format<37, 48>, video::src_format<29, 49>, po<53, 54>, vmad::scale, sat<55>, dgpr<0>, cc, comma, neg_po<54, 53>, sgpr<8>, video::selector<36, 37>, comma, sgpr<20>, video::selector<28, 29>, comma, neg_po<53, 54>, sgpr<39>),
+    INSN(0x5F00000000000000ULL, 0, "VMAD", video::src_format<37, 48>, video::imm_format<29, 49>, po<53, 54>, vmad::scale, sat<55>, dgpr<0>, cc, comma, neg_po<54, 53>, sgpr<8>, video::selector<36, 37>, comma, uinteger<16, 20>,                  comma, neg_po<53, 54>, sgpr<39>),
     INSN(0x3A04000000000000ULL, 0, "VMNMX", video::dest_sign, video::src_format<37, 48>, video::src_format<29, 49>, video::mx<56>, sat<55>, video::vmnmx_op<51>, dgpr<0>, cc, comma, sgpr<8>, video::selector<36, 37>, comma, sgpr<20>, video::selector<28, 29>, comma, sgpr<39>),
     INSN(0x3A00000000000000ULL, 0, "VMNMX", video::dest_sign, video::src_format<37, 48>, video::imm_format<29, 49>, video::mx<56>, sat<55>, video::vmnmx_op<51>, dgpr<0>, cc, comma, sgpr<8>, video::selector<36, 37>, comma, uinteger<16, 20>,                  comma, sgpr<39>),
     INSN(0x50F4000000000000ULL, 0, "VSETP", vsetp::integer_compare<43>, video::src_format<37, 48>, video::src_format<29, 49>, bop<45>, pred<3>, comma, pred<0>, comma, sgpr<8>, video::selector<36, 37>, comma, sgpr<20>, video::selector<28, 29>, comma, pred<39, true>),
-- 
2.43.0


From 41958373123175f8c740a2817b813c8a698914fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:49 +0000
Subject: [PATCH 14/31] fix: reject misaligned ATOMS offsets instead of
 truncating them

---
 src/operand.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index d53ecf0..eb96963 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -454,6 +454,9 @@ namespace memory
 
                 uint64_t value;
                 CHECK(convert_integer(token, min, max, &value));
+                if (value & max_bits(shr)) {
+                    return fail(token, "address offset has to be aligned to %d bytes", 1 << shr);
+                }
                 value >>= shr;
                 op.add_bits((value & max_bits(size)) << addr);
                 token = ctx.tokenize();
-- 
2.43.0


From 66284b46757abb2d2b11bf4d23b3036ad5a853c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:51 +0000
Subject: [PATCH 15/31] fix: print out of range integers completely

---
 src/helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index 93930f2..0856cdb 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -55,7 +55,7 @@ error convert_integer(const token& token, int64_t min, int64_t max, uint64_t* re
     int64_t value = token.data.immediate;
     if (value < min || value > max) {
         return fail(token,
-                    "integer \33[1m%d\33[0m is out of range, expected to be "
+                    "integer \33[1m%" PRId64 "\33[0m is out of range, expected to be "
                     "from %" PRId64 " to %" PRId64 " inclusively",
                     value, min, max);
     }
-- 
2.43.0


From f7e315f691b3f1d09756f4acdf58b4205b539836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:56 +0000
Subject: [PATCH 16/31] fix: don't overflow computing the offset of far branch
 targets

---
 src/operand.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index eb96963..024aa2e 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -142,10 +142,11 @@ DEFINE_OPERAND(label)
 
     static constexpr int64_t max = max_bits(23);
     static constexpr int64_t min = -static_cast<int64_t>(max_bits(23)) - 1;
-    const int64_t value = absolute - ctx.pc - 8;
-    if (value > max || value < min) {
+    const int64_t next_pc = ctx.pc + 8;
+    if (absolute > next_pc + max || absolute < next_pc + min) {
         return fail(token, "label out of range");
     }
+    const int64_t value = absolute - next_pc;
     op.add_bits((static_cast<uint64_t>(value) & 0x7FFFFF) << 20);
     op.add_bits((value < 0 ? 1ULL : 0ULL) << 43);
 
-- 
2.43.0


From cb3f61682343b100bd328b15d5f706347f6a0e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:37 +0000
Subject: [PATCH 17/31] fix: reject integer literals that don't fit in 64 bits

---
 src/context.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/context.cpp b/src/context.cpp
index ae4fd60..f7b3112 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
@@ -161,7 +162,11 @@ token context::tokenize()
             token.data.float_immediate = std::strtof(contents, &conversion_end);
         } else {
             token.type = token_type::immediate;
+            errno = 0;
             token.data.immediate = static_cast<int64_t>(std::strtoll(contents, &conversion_end, 0));
+            if (errno == ERANGE) {
+                conversion_end = nullptr;
+            }
         }
         if (conversion_end != text) {
             fatal_error(token, "failed to parse literal \33[1;31m%.*s\33[0m",
-- 
2.43.0


From bddb96ddb0f013c611ce4eee9a2f9635922301a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:40 +0000
Subject: [PATCH 18/31] fix: reject integers that can't be represented as float

---
 src/helper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index 0856cdb..be2c721 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -158,8 +158,9 @@ error assemble_float_immediate(context& ctx, token& token, opcode& op, int bits)
         break;
     case token_type::immediate:
         value = static_cast<float>(token.data.immediate);
-        if (static_cast<int64_t>(token.data.immediate) != value) {
-            return fail(token, "integer immediate " PRId64 "cannot be represented as float",
+        // the largest integers round up to 2^63, which is out of range when converted back
+        if (value >= 0x1p63f || static_cast<int64_t>(value) != token.data.immediate) {
+            return fail(token, "integer immediate %" PRId64 " cannot be represented as float",
                         token.data.immediate);
         }
         break;
-- 
2.43.0


From 78f5157131f3970b1efcae3395439628e1307808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:44 +0000
Subject: [PATCH 19/31] fix: convert double immediates with double precision

---
 src/context.cpp | 4 +++-
 src/helper.cpp  | 8 ++++----
 src/token.h     | 8 +++++++-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index f7b3112..b405290 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -159,7 +159,9 @@ token context::tokenize()
         char* conversion_end = nullptr;
         if (is_floating_point) {
             token.type = token_type::float_immediate;
-            token.data.float_immediate = std::strtof(contents, &conversion_end);
+            // convert to each precision from the text to avoid rounding or overflowing twice
+            token.data.float_immediate.fp32 = std::strtof(contents, &conversion_end);
+            token.data.float_immediate.fp64 = std::strtod(contents, &conversion_end);
         } else {
             token.type = token_type::immediate;
             errno = 0;
diff --git a/src/helper.cpp b/src/helper.cpp
index be2c721..950fd98 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -154,7 +154,7 @@ error assemble_float_immediate(context& ctx, token& token, opcode& op, int bits)
     float value;
     switch (token.type) {
     case token_type::float_immediate:
-        value = token.data.float_immediate;
+        value = token.data.float_immediate.fp32;
         break;
     case token_type::immediate:
         value = static_cast<float>(token.data.immediate);
@@ -211,7 +211,7 @@ error assemble_double_immediate(context& ctx, token& token, opcode& op)
     double value;
     switch (token.type) {
     case token_type::float_immediate:
-        value = token.data.float_immediate;
+        value = token.data.float_immediate.fp64;
         if (value < 0) {
             op.add_bits(1ULL << 56);
         }
@@ -259,8 +259,8 @@ error assemble_half_float_immediate(context& ctx, token& token, opcode& op, int
     uint16_t value;
     switch (token.type) {
     case token_type::float_immediate:
-        value = fp32_to_fp16(token.data.float_immediate);
-        if (token.data.float_immediate < 0 && neg_bit >= 0) {
+        value = fp32_to_fp16(token.data.float_immediate.fp32);
+        if (token.data.float_immediate.fp32 < 0 && neg_bit >= 0) {
             op.add_bits(1ULL << neg_bit);
         }
         break;
diff --git a/src/token.h b/src/token.h
index 0b1d5e6..5b6e839 100644
--- a/src/token.h
+++ b/src/token.h
@@ -28,12 +28,18 @@ struct token_predicate
     int negated;
 };
 
+struct token_float
+{
+    float fp32;
+    double fp64;
+};
+
 union token_data
 {
     token_predicate predicate;
     std::string_view string{};
     int64_t immediate;
-    double float_immediate;
+    token_float float_immediate;
     uint8_t regster;
 };
 
-- 
2.43.0


From a443b144d5af5f71c06327a8dbec22f20b6709b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:08 +0000
Subject: [PATCH 20/31] fix: keep the sign of negative zero immediates

---
 src/helper.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index 950fd98..454df84 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -26,6 +26,14 @@ static error confirm_type_next(context& ctx, token& token, token_type type)
     return confirm_type(token, type);
 }
 
+// unlike a comparison with zero, it is true for negative zero
+static bool is_negative(double value)
+{
+    uint64_t raw;
+    std::memcpy(&raw, &value, sizeof(raw));
+    return raw >> 63 != 0;
+}
+
 error confirm_type(const token& token, token_type type)
 {
     if (token.type == type) {
@@ -212,7 +220,7 @@ error assemble_double_immediate(context& ctx, token& token, opcode& op)
     switch (token.type) {
     case token_type::float_immediate:
         value = token.data.float_immediate.fp64;
-        if (value < 0) {
+        if (is_negative(value)) {
             op.add_bits(1ULL << 56);
         }
         break;
@@ -260,7 +268,7 @@ error assemble_half_float_immediate(context& ctx, token& token, opcode& op, int
     switch (token.type) {
     case token_type::float_immediate:
         value = fp32_to_fp16(token.data.float_immediate.fp32);
-        if (token.data.float_immediate.fp32 < 0 && neg_bit >= 0) {
+        if (is_negative(token.data.float_immediate.fp32) && neg_bit >= 0) {
             op.add_bits(1ULL << neg_bit);
         }
         break;
-- 
2.43.0


From 696e469ffb73676a794786886a5e1957c27cd295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:25 +0000
Subject: [PATCH 21/31] fix: reject unknown options and option arguments on
 another line

---
 src/options.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/options.cpp b/src/options.cpp
index 7208d9f..b5e75eb 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -42,32 +42,37 @@ void context::parse_option(token& token)
         parse_type();
     } else if (equal(token, ".num_gprs")) {
         token = tokenize();
+        check_option_line();
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
         num_gprs = static_cast<int>(token.data.immediate);
-        check_option_line();
     } else if (equal(token, ".workgroup_size")) {
         for (int i = 0; i < 3; ++i) {
             token = tokenize();
+            check_option_line();
             if (token.type != token_type::immediate) {
                 fatal_error(token, "expected workgroup sizes");
             }
             block_dimensions[i] = static_cast<int>(token.data.immediate);
         }
-        check_option_line();
     } else if (equal(token, ".shared_memory")) {
         token = tokenize();
+        check_option_line();
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected shared memory size");
         }
         shared_mem_size = static_cast<int>(token.data.immediate);
     } else if (equal(token, ".local_memory")) {
         token = tokenize();
+        check_option_line();
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected local memory size");
         }
         local_mem_size = static_cast<int>(token.data.immediate);
+    } else {
+        fatal_error(token, "unknown option \33[1m%.*s\33[0m",
+                    static_cast<int>(token.data.string.size()), token.data.string.data());
     }
     token = tokenize();
     if (option_line == token.line) {
-- 
2.43.0


From 33579def9f0e0d07c84bbc2426d6909d15859e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:28 +0000
Subject: [PATCH 22/31] fix: reject option values that don't fit in the program
 header

---
 src/dksh.cpp    |  6 +++---
 src/options.cpp | 52 +++++++++++++++++++++++++------------------------
 2 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/dksh.cpp b/src/dksh.cpp
index 4e3dd67..51f9bee 100644
--- a/src/dksh.cpp
+++ b/src/dksh.cpp
@@ -93,9 +93,9 @@ void context::write_dksh(size_t code_size, std::vector<uint64_t>& output) const
         fatal_error("entrypoint is not aligned");
     }
 
-    const int local_pos_sz = align8(local_mem_size);
-    const int local_neg_sz = 0;
-    const int crs_sz = 0x800;
+    const uint32_t local_pos_sz = align8(local_mem_size);
+    const uint32_t local_neg_sz = 0;
+    const uint32_t crs_sz = 0x800;
 
     dksh_program_header program_header;
     std::memset(&program_header, 0, sizeof(program_header));
diff --git a/src/options.cpp b/src/options.cpp
index b5e75eb..f5e5e4f 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -1,8 +1,17 @@
+#include <cstdint>
+#include <limits>
+
 #include "context.h"
 #include "error.h"
 #include "helper.h"
 #include "token.h"
 
+static constexpr int64_t MAX_INT = std::numeric_limits<int32_t>::max();
+
+// the scratch size of a warp (32 threads and the call stack) has to fit in 32 bits
+static constexpr int64_t MAX_LOCAL_MEMORY =
+    (std::numeric_limits<uint32_t>::max() - 0x800) / 32 & ~0xf;
+
 void context::parse_option(token& token)
 {
     const int option_line = token.line;
@@ -11,6 +20,18 @@ void context::parse_option(token& token)
             fatal_error(token, "unexpected new line in option");
         }
     };
+    const auto parse_integer = [this, &check_option_line, &token](const char* what, int64_t max) {
+        token = tokenize();
+        check_option_line();
+        if (token.type != token_type::immediate) {
+            fatal_error(token, "expected %s", what);
+        }
+        if (token.data.immediate < 0 || token.data.immediate > max) {
+            fatal_error(token, "%s must be between 0 and %lld inclusively", what,
+                        static_cast<long long>(max));
+        }
+        return static_cast<int>(token.data.immediate);
+    };
     const auto parse_type = [this, &check_option_line, &token] {
         if (type) {
             fatal_error(token, "program type already specified");
@@ -41,35 +62,16 @@ void context::parse_option(token& token)
     } else if (equal(token, ".type")) {
         parse_type();
     } else if (equal(token, ".num_gprs")) {
-        token = tokenize();
-        check_option_line();
-        if (token.type != token_type::immediate) {
-            fatal_error(token, "expected number of general purpose registers");
-        }
-        num_gprs = static_cast<int>(token.data.immediate);
+        num_gprs = parse_integer("number of general purpose registers", 255);
     } else if (equal(token, ".workgroup_size")) {
-        for (int i = 0; i < 3; ++i) {
-            token = tokenize();
-            check_option_line();
-            if (token.type != token_type::immediate) {
-                fatal_error(token, "expected workgroup sizes");
-            }
-            block_dimensions[i] = static_cast<int>(token.data.immediate);
+        for (unsigned& dimension : block_dimensions) {
+            dimension = parse_integer("workgroup size", MAX_INT);
         }
     } else if (equal(token, ".shared_memory")) {
-        token = tokenize();
-        check_option_line();
-        if (token.type != token_type::immediate) {
-            fatal_error(token, "expected shared memory size");
-        }
-        shared_mem_size = static_cast<int>(token.data.immediate);
+        // it gets aligned to 256 bytes
+        shared_mem_size = parse_integer("shared memory size", MAX_INT - 255);
     } else if (equal(token, ".local_memory")) {
-        token = tokenize();
-        check_option_line();
-        if (token.type != token_type::immediate) {
-            fatal_error(token, "expected local memory size");
-        }
-        local_mem_size = static_cast<int>(token.data.immediate);
+        local_mem_size = parse_integer("local memory size", MAX_LOCAL_MEMORY);
     } else {
         fatal_error(token, "unknown option \33[1m%.*s\33[0m",
                     static_cast<int>(token.data.string.size()), token.data.string.data());
-- 
2.43.0


From 033304f1535acf9a9f14cbc67140b6346d619ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:34 +0000
Subject: [PATCH 23/31] fix: don't print tokens that aren't identifiers as text

---
 src/operand.h   | 2 +-
 src/options.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 024aa2e..47277f6 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1217,7 +1217,7 @@ DEFINE_OPERAND(s2r)
         value = find_in_table(token, table, "");
         if (!value) {
             return fail(token, "invalid system register \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(info(token).size()), info(token).data());
         }
         token = ctx.tokenize();
     }
diff --git a/src/options.cpp b/src/options.cpp
index f5e5e4f..42e8ebc 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -53,7 +53,7 @@ void context::parse_option(token& token)
             type = program_type::compute;
         } else {
             fatal_error(token, "invalid program type \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(info(token).size()), info(token).data());
         }
     };
     if (equal(token, ".dksh")) {
-- 
2.43.0


From 9ad18c4260989f02dd447a86cd588537d3d4adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:36 +0000
Subject: [PATCH 24/31] fix: print the message when the input file can't be
 opened

---
 src/command_line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 7444c78..3fb97ee 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -11,7 +11,7 @@ static std::string read_file(const char* filename)
 {
     std::ifstream file(filename, std::ios::binary);
     if (!file.is_open()) {
-        fatal_error(nullptr, "%s: failed to open", filename);
+        fatal_error("%s: failed to open", filename);
     }
     file.seekg(0, std::ios::end);
     std::string text(file.tellg(), ' ');
-- 
2.43.0


From cb5c098cf7c649304e7cb5b9529f79bc598ddff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:55 +0000
Subject: [PATCH 25/31] fix: fail cleanly when the input isn't a seekable file

---
 src/command_line.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 3fb97ee..e639a11 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -1,3 +1,4 @@
+#include <array>
 #include <cstdint>
 #include <cstring>
 #include <fstream>
@@ -13,11 +14,15 @@ static std::string read_file(const char* filename)
     if (!file.is_open()) {
         fatal_error("%s: failed to open", filename);
     }
-    file.seekg(0, std::ios::end);
-    std::string text(file.tellg(), ' ');
-
-    file.seekg(0, std::ios::beg);
-    file.read(std::data(text), std::size(text));
+    // not every input can tell its size (e.g. pipes)
+    std::string text;
+    std::array<char, 4096> buffer;
+    while (file.read(std::data(buffer), std::size(buffer)), file.gcount() > 0) {
+        text.append(std::data(buffer), static_cast<size_t>(file.gcount()));
+    }
+    if (file.bad()) {
+        fatal_error("%s: failed to read", filename);
+    }
     return text;
 }
 
-- 
2.43.0


From 11d5fe8d4b2a10ade1c7103c7064e314081ad3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:57 +0000
Subject: [PATCH 26/31] fix: report failures writing the output file

---
 src/command_line.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index e639a11..492df16 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -63,6 +63,10 @@ int main(int argc, char** argv)
             fatal_error("%s: failed to open", output_file);
         }
         outfp.write(reinterpret_cast<const char*>(binary.data()), binary.size() * sizeof(uint64_t));
+        outfp.close();
+        if (!outfp) {
+            fatal_error("%s: failed to write", output_file);
+        }
     } catch (const std::ios_base::failure& e) {
         fatal_error("failed to write output file: %s", e.what());
     }
-- 
2.43.0


From e20e5382765f5fe41c37777fff2f5c835f317984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:00 +0000
Subject: [PATCH 27/31] fix: reject source code with null characters instead of
 ignoring what follows

---
 src/command_line.cpp | 2 +-
 src/nxas.cpp         | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 492df16..cfd17ee 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -56,7 +56,7 @@ int main(int argc, char** argv)
         fatal_error("no output file");
     }
     const std::string input_text = read_file(input_file);
-    const std::vector<uint64_t> binary = nxas::assemble(input_text.c_str(), input_file);
+    const std::vector<uint64_t> binary = nxas::assemble(input_text, input_file);
     try {
         std::ofstream outfp(output_file, std::ios::binary);
         if (!outfp.is_open()) {
diff --git a/src/nxas.cpp b/src/nxas.cpp
index 6d19636..221c608 100644
--- a/src/nxas.cpp
+++ b/src/nxas.cpp
@@ -24,6 +24,10 @@ static uint64_t generate_sched(std::span<const opcode> opcodes, size_t index,
 
 std::vector<uint64_t> assemble(const std::string& code, const char* filename)
 {
+    if (code.find('\0') != std::string::npos) {
+        fatal_error("%s: source code contains a null character", filename);
+    }
+
     // Prepare our context
     context ctx(filename, code.c_str());
 
-- 
2.43.0


From f5daefddd1337b74e8bd5b1c4ce06609893df2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:36 +0000
Subject: [PATCH 28/31] fix: reject labels in the middle of a statement instead
 of ignoring them

---
 src/context.cpp |  4 ----
 src/parse.cpp   | 13 ++++++++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index b405290..280296c 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -224,10 +224,6 @@ token context::tokenize()
         next();
     }
 
-    if (text[-1] == ':') {
-        // ignore labels
-        return tokenize();
-    }
     token.type = token_type::identifier;
     token.data.string = std::string_view(contents, static_cast<size_t>(text - contents));
     return token;
diff --git a/src/parse.cpp b/src/parse.cpp
index 02923e6..9a190bb 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -129,12 +129,19 @@ static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& in
 bool parse_instruction(context& ctx, opcode& op)
 {
     token token = ctx.tokenize();
+    while (token.type == token_type::identifier) {
+        if (token.data.string.starts_with('.')) {
+            ctx.parse_option(token);
+        } else if (token.data.string.ends_with(':')) {
+            // labels are only valid before an instruction, their address is already known
+            token = ctx.tokenize();
+        } else {
+            break;
+        }
+    }
     if (token.type == token_type::none) {
         return false;
     }
-    while (token.type == token_type::identifier && token.data.string[0] == '.') {
-        ctx.parse_option(token);
-    }
     if (ctx.pc % 0x20 == 0) {
         ctx.pc += 8;
     }
-- 
2.43.0


From 511b76280a0f049ee090b249e8ce5e34770e293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:41 +0000
Subject: [PATCH 29/31] fix: don't read past the end of code ending in an
 identifier

---
 src/context.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 280296c..8cd5774 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -275,9 +275,12 @@ void context::generate_labels()
         next();
     };
     const auto next_line = [this, advance] {
-        do {
+        while (*text) {
             advance();
-        } while (*text && column > 0);
+            if (column == 0) {
+                break;
+            }
+        }
     };
 
     assert(line == 0 && column == 0);
-- 
2.43.0


From ed11d8b3f5ef45d768bafcf40c39d5b6cd3d1fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:38 +0000
Subject: [PATCH 30/31] fix: report the error of the instruction form that read
 more code

---
 src/context.h |  6 ++++++
 src/parse.cpp | 21 +++++++++------------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/context.h b/src/context.h
index 1869be5..70cb071 100644
--- a/src/context.h
+++ b/src/context.h
@@ -24,6 +24,12 @@ class context
 
     std::optional<int64_t> find_label(std::string_view label) const;
 
+    // number of characters read
+    size_t position() const noexcept
+    {
+        return static_cast<size_t>(text - text_begin);
+    }
+
     std::vector<uint64_t> binary(std::span<const uint64_t> code) const;
 
     int64_t pc = 0;
diff --git a/src/parse.cpp b/src/parse.cpp
index 9a190bb..589f6b6 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -103,7 +103,7 @@ static error assemble_sched(context& ctx, token& token, opcode& op)
     return {};
 }
 
-static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& insn)
+static std::pair<error, size_t> parse_insn(context& ctx, opcode& op, const insn& insn)
 {
     op.add_bits(insn.opcode);
 
@@ -111,19 +111,15 @@ static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& in
     if ((insn.flags & NO_PRED) && ((op.value >> 16) & 0xF) != TRUE_PREDICATE) {
         return {fail(token, "%s does not support predicated execution", insn.mnemonic), 0};
     }
-    int score = 1;
     for (const operand& operand : insn.operands) {
         if (error message = operand(ctx, token, op); message) {
-            return {std::move(message), score};
+            return {std::move(message), ctx.position()};
         }
-        ++score;
     }
-    score += 1000; // A number high enough to have better score than any number of operands
-
     if (error message = assemble_sched(ctx, token, op); message) {
-        return {std::move(message), score};
+        return {std::move(message), ctx.position()};
     }
-    return {confirm_type(token, token_type::semicolon), score};
+    return {confirm_type(token, token_type::semicolon), ctx.position()};
 }
 
 bool parse_instruction(context& ctx, opcode& op)
@@ -160,8 +156,9 @@ bool parse_instruction(context& ctx, opcode& op)
     }
     const context saved_context = ctx;
     const opcode saved_op = op;
+    // report the error of the instruction that could read more code
     error error_message;
-    int error_score = -1;
+    size_t error_position = 0;
 
     const size_t num_insns = sizeof(table) / sizeof(table[0]);
     for (size_t i = 0; i < num_insns; ++i) {
@@ -169,15 +166,15 @@ bool parse_instruction(context& ctx, opcode& op)
         if (!equal(token, insn.mnemonic)) {
             continue;
         }
-        auto [insn_error, score] = parse_insn(ctx, op, insn);
+        auto [insn_error, position] = parse_insn(ctx, op, insn);
         if (!insn_error) {
             // successfully decoded instruction
             ctx.pc += 8;
             return true;
         }
-        if (score > error_score) {
+        if (!error_message || position > error_position) {
             error_message = std::move(insn_error);
-            error_score = score;
+            error_position = position;
         }
         // failure, restore context
         ctx = saved_context;
-- 
2.43.0


From 06055c7a2465acf60640a65bbed5a1d704ac7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:55 +0000
Subject: [PATCH 31/31] fix: floating point literals do not depend on the
 locale

strtof and strtod expect the decimal separator of the current locale, so a
process that had set another locale could not assemble fractions.
---
 src/context.cpp | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 8cd5774..5d8dedf 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -1,14 +1,17 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <charconv>
 #include <cerrno>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <optional>
 #include <string_view>
+#include <system_error>
 
 #include "context.h"
 #include "error.h"
@@ -70,6 +73,29 @@ static token_type get_operator_type(int character) noexcept
     }
 }
 
+// unlike strtof and strtod, the result does not depend on the locale
+template <typename T>
+static bool parse_float(const char* begin, const char* end, T& value)
+{
+    const bool negative = *begin == '-';
+    if (is_contained("+-", *begin)) {
+        ++begin;
+    }
+    if (!is_decimal(*begin)) {
+        return false;
+    }
+    const auto [ptr, ec] = std::from_chars(begin, end, value, std::chars_format::fixed);
+    if (ec == std::errc::result_out_of_range) {
+        const char* const point = std::find(begin, end, '.');
+        const bool is_large = std::any_of(begin, point, [](char digit) { return digit != '0'; });
+        value = is_large ? std::numeric_limits<T>::infinity() : T{0};
+    }
+    if (negative) {
+        value = -value;
+    }
+    return ptr == end;
+}
+
 context::context(const char* filename_, const char* text_)
     : filename{filename_}, text_begin{text_}, text{text_}
 {
@@ -155,13 +181,16 @@ token context::tokenize()
         if (!is_separator(*text)) {
             fatal_error(token, "no separator after immediate");
         }
-        // TODO: use charconv here once gcc 11 ships
         char* conversion_end = nullptr;
         if (is_floating_point) {
             token.type = token_type::float_immediate;
             // convert to each precision from the text to avoid rounding or overflowing twice
-            token.data.float_immediate.fp32 = std::strtof(contents, &conversion_end);
-            token.data.float_immediate.fp64 = std::strtod(contents, &conversion_end);
+            if (!parse_float(contents, text, token.data.float_immediate.fp32) ||
+                !parse_float(contents, text, token.data.float_immediate.fp64)) {
+                fatal_error(token, "failed to parse literal \33[1;31m%.*s\33[0m",
+                            (int)(text - contents), contents);
+            }
+            return token;
         } else {
             token.type = token_type::immediate;
             errno = 0;
-- 
2.43.0

