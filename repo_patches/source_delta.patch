From ba955e7c53c0801ed8d8f23f03be934a8893ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 01/50] fix: ToString(D_remote) returned an empty string

---
 nsasm/mnemonic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/mnemonic.cc b/nsasm/mnemonic.cc
index 6a066ef..a78e74f 100644
--- a/nsasm/mnemonic.cc
+++ b/nsasm/mnemonic.cc
@@ -44,7 +44,7 @@ std::string_view ToString(Suffix m) {
 }
 
 std::string_view ToString(DirectiveName d) {
-  if (d < D_begin || d > D_org) {
+  if (d < D_begin || d > D_remote) {
     return "";
   }
   return directive_names[d];
-- 
2.43.0


From a76add23502149bf9ebc4764ae74e891beb31731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 02/50] fix: ExHiROM banks $80-$ff map to the first 4 MiB of
 the cartridge

The inverted A23 was tested on a value from which bank bit 7 had already been
masked off, so every bank mapped to the second 4 MiB.
---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 4cf8731..7891440 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -26,7 +26,7 @@ ErrorOr<size_t> SnesToROMAddress(nsasm::Address snes_address, Mapping mapping) {
   } else if (mapping == kExHiRom) {
     int result = bank_address | ((bank & 0x3f) << 16);
     // address bit 23 is inverted and used as bit 22 of the CART address
-    if ((result & 0x800000) == 0) {
+    if ((bank & 0x80) == 0) {
       result |= 0x400000;
     }
     return result;
-- 
2.43.0


From d381e290e3f6bc87efba989db75543a5e706b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 03/50] fix: reads longer than 64 KiB returned too few bytes

A read that wraps all the way around its bank can end at a higher ROM offset
than it started at; only treat it as contiguous if the distance matches.
---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 7891440..f17fcce 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -47,7 +47,7 @@ ErrorOr<std::vector<uint8_t>> Rom::Read(nsasm::Address address,
       SnesToROMAddress(address.AddWrapped(length - 1), mapping_mode_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(first_address, path_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(last_address, path_);
-  if (*last_address > *first_address) {
+  if (*last_address == *first_address + (length - 1)) {
     // Normal read -- does not wrap around a bank.  This is by far the common
     // case.
     if (*last_address >= data_.size()) {
-- 
2.43.0


From 5e03abb3d704b3c8f07c58df6245ea3c0addfb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 04/50] fix: report the SNES address, not a ROM offset as a
 line number, on short ROMs

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index f17fcce..7627dcd 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -52,7 +52,7 @@ ErrorOr<std::vector<uint8_t>> Rom::Read(nsasm::Address address,
     // case.
     if (*last_address >= data_.size()) {
       return Error("Address past end of ROM")
-          .SetLocation(path_, *first_address);
+          .SetLocation(path_, address);
     }
     return std::vector<uint8_t>(data_.begin() + *first_address,
                                 data_.begin() + *last_address + 1);
-- 
2.43.0


From 0483036f69a75374b0cf2e64dd3cec1f3b72e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 05/50] fix: close the ROM file when its header cannot be read

---
 nsasm/rom.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 7627dcd..40691b4 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -117,6 +117,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
     header.resize(0x200);
     int bytes_read = fread(&header[0], 1, 0x200, f);
     if (bytes_read != 0x200) {
+      fclose(f);
       return Error("Failed to read file").SetLocation(path);
     }
     file_size -= 0x200;
-- 
2.43.0


From 236479305c72f511dce4d124d1b949726c11a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 06/50] fix: a 512-byte ROM file indexed an empty vector

---
 nsasm/rom.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 40691b4..9e97520 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -122,6 +122,10 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
     }
     file_size -= 0x200;
   }
+  if (file_size < 0x10000) {
+    fclose(f);
+    return Error("File is too small to be an SNES ROM").SetLocation(path);
+  }
   std::vector<uint8_t> data;
   data.resize(file_size);
   int bytes_read = fread(&data[0], 1, file_size, f);
-- 
2.43.0


From 00c5e755c6a2b396ad696cc2faf57a60ee7a8e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 07/50] fix: writing just past the end of a ROM corrupted the
 heap

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 9e97520..e57a705 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -180,7 +180,7 @@ ErrorOr<void> RomOverwriter::Write(Address address,
     auto rom_index =
         SnesToROMAddress(address.AddWrapped(i), rom_->mapping_mode_);
     NSASM_RETURN_IF_ERROR(rom_index);
-    if (*rom_index > data_.size()) {
+    if (*rom_index >= data_.size()) {
       return Error("Attempt to write at %s, past end of file",
                    address.AddWrapped(i).ToString());
     }
-- 
2.43.0


From 951073e1b393876e4f036c6f47f1bbcfc919cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 08/50] fix: RomOverwriter read its ROM through a moved-from
 pointer

---
 nsasm/rom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.h b/nsasm/rom.h
index 9245a70..b0ac4a4 100644
--- a/nsasm/rom.h
+++ b/nsasm/rom.h
@@ -75,7 +75,7 @@ class RomIdentityTest : public OutputSink {
 class RomOverwriter : public OutputSink {
  public:
   RomOverwriter(std::unique_ptr<Rom> rom)
-      : rom_(std::move(rom)), data_(rom->data_) {}
+      : rom_(std::move(rom)), data_(rom_->data_) {}
 
   ErrorOr<void> Write(nsasm::Address address,
                       absl::Span<const std::uint8_t> data) override;
-- 
2.43.0


From c9d88d1b54c924cf1f3468d30ce62ea92f134c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 09/50] fix: quick_dump aborted instead of reporting an
 unreadable address

---
 util/quick_dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 097ef5f..305fe49 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -72,7 +72,7 @@ int main(int argc, char** argv) {
         break;
     }
     if (!value.ok()) {
-      absl::PrintF("%s\n", rom.error().ToString());
+      absl::PrintF("%s\n", value.error().ToString());
       return 1;
     }
     switch (stride) {
-- 
2.43.0


From 830ec1b41ba08c302bfb60e635c37087d70a3449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 10/50] fix: quick_dump used uninitialised or out-of-range
 arguments

An empty argument makes sscanf return EOF rather than 0, and an address beyond
$ffffff cannot be represented.
---
 util/quick_dump.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 305fe49..9d35ee8 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -28,19 +28,19 @@ int main(int argc, char** argv) {
   int count;
   int stride = 1;
   int per_line = 8;
-  if (!sscanf(argv[2], "%x", &start)) {
+  if (sscanf(argv[2], "%x", &start) != 1 || start > 0xffffff) {
     usage(argv[0]);
     return 1;
   }
-  if (!sscanf(argv[3], "%d", &count)) {
+  if (sscanf(argv[3], "%d", &count) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 4 && !sscanf(argv[4], "%d", &stride)) {
+  if (argc > 4 && sscanf(argv[4], "%d", &stride) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 5 && !sscanf(argv[5], "%d", &per_line)) {
+  if (argc > 5 && sscanf(argv[5], "%d", &per_line) != 1) {
     usage(argv[0]);
     return 1;
   }
-- 
2.43.0


From abdd36ca1f7bd9dfef12ead661fdd05641b3c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 11/50] fix: numeric literals that do not fit were silently
 truncated

---
 nsasm/token.cc | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/nsasm/token.cc b/nsasm/token.cc
index 471a377..501f818 100644
--- a/nsasm/token.cc
+++ b/nsasm/token.cc
@@ -1,5 +1,8 @@
 #include "nsasm/token.h"
 
+#include <cerrno>
+#include <cstdlib>
+
 #include "absl/strings/ascii.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
@@ -26,6 +29,18 @@ bool IsIdentifierChar(char ch) {
   return IsDecimalDigit(ch) || IsIdentifierFirstChar(ch);
 }
 
+// Convert a string of digits to a number, or return an error if the value is
+// greater than `max`.
+ErrorOr<int> ParseDigits(const std::string& digits, int base, long max,
+                         Location loc) {
+  errno = 0;
+  long value = strtol(digits.c_str(), nullptr, base);
+  if (errno == ERANGE || value > max) {
+    return Error("Numeric literal '%s' is too large", digits).SetLocation(loc);
+  }
+  return static_cast<int>(value);
+}
+
 }  // namespace
 
 std::string Token::ToString() const {
@@ -135,7 +150,8 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         hex_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(hex_digits.c_str(), nullptr, 16);
+      auto value = ParseDigits(hex_digits, 16, 0xffffff, loc);
+      NSASM_RETURN_IF_ERROR(value);
       // For hex constants, deduce the type from the number of characters.
       // ("$00" is a byte and "$0000" is a word, for example.)
       NumericType type = T_long;
@@ -144,7 +160,7 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
       } else if (hex_digits.size() <= 4) {
         type = T_word;
       }
-      result.emplace_back(value, loc, type);
+      result.emplace_back(*value, loc, type);
       continue;
     }
 
@@ -156,14 +172,15 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         binary_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(binary_digits.c_str(), nullptr, 2);
+      auto value = ParseDigits(binary_digits, 2, 0xffffff, loc);
+      NSASM_RETURN_IF_ERROR(value);
       NumericType type = T_long;
       if (binary_digits.size() <= 8) {
         type = T_byte;
       } else if (binary_digits.size() <= 16) {
         type = T_word;
       }
-      result.emplace_back(value, loc, type);
+      result.emplace_back(*value, loc, type);
       continue;
     }
 
@@ -174,8 +191,9 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         decimal_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(decimal_digits.c_str(), nullptr, 10);
-      result.emplace_back(value, loc);
+      auto value = ParseDigits(decimal_digits, 10, 0x7fffffff, loc);
+      NSASM_RETURN_IF_ERROR(value);
+      result.emplace_back(*value, loc);
       continue;
     }
 
-- 
2.43.0


From 448b7fddf3b4e886d16411b126c2e33aef0e6426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 12/50] fix: expression arithmetic overflowed signed integers

---
 nsasm/expression.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/nsasm/expression.h b/nsasm/expression.h
index 1f9bddb..dd6a5f4 100644
--- a/nsasm/expression.h
+++ b/nsasm/expression.h
@@ -13,6 +13,9 @@
 
 namespace nsasm {
 
+// Arithmetic wraps on overflow, as two's complement.
+inline int WrappedInt(unsigned int value) { return static_cast<int>(value); }
+
 struct BinaryOp {
   using FnPtr = ErrorOr<int> (*)(int, int);
   BinaryOp() = default;
@@ -24,15 +27,24 @@ struct BinaryOp {
 };
 
 inline BinaryOp MakePlusOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a + b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    return WrappedInt(static_cast<unsigned int>(a) +
+                      static_cast<unsigned int>(b));
+  };
   return BinaryOp(op, '+');
 }
 inline BinaryOp MakeMinusOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a - b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    return WrappedInt(static_cast<unsigned int>(a) -
+                      static_cast<unsigned int>(b));
+  };
   return BinaryOp(op, '-');
 }
 inline BinaryOp MakeMultiplyOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a * b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    return WrappedInt(static_cast<unsigned int>(a) *
+                      static_cast<unsigned int>(b));
+  };
   return BinaryOp(op, '*');
 }
 inline BinaryOp MakeDivideOp() {
@@ -40,6 +52,9 @@ inline BinaryOp MakeDivideOp() {
     if (b == 0) {
       return Error("division by zero");
     }
+    if (b == -1) {
+      return WrappedInt(0u - static_cast<unsigned int>(a));
+    }
     return a / b;
   };
   return BinaryOp(op, '/');
@@ -59,7 +74,9 @@ struct UnaryOp {
 };
 
 inline UnaryOp MakeNegateOp() {
-  UnaryOp::FnPtr fn = [](int a) -> ErrorOr<int> { return -a; };
+  UnaryOp::FnPtr fn = [](int a) -> ErrorOr<int> {
+    return WrappedInt(0u - static_cast<unsigned int>(a));
+  };
   UnaryOp::TypeFnPtr tfn = [](NumericType t) { return Signed(t); };
   return UnaryOp(fn, tfn, '-');
 }
-- 
2.43.0


From 5031e1d719928fc7cc1acc4840fd8a635ed7ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 13/50] fix: an empty statement between colons dropped the rest
 of the line

---
 nsasm/parse.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index c2431f6..7940ad7 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -545,7 +545,9 @@ ErrorOr<std::vector<absl::variant<Statement, ParsedLabel>>> Parse(
     }
 
     if (AtEnd(&tokens)) {
-      return result_vector;
+      // Nothing between two separators; move on to the next statement.
+      tokens.remove_prefix(1);
+      continue;
     }
 
     // pseudo scope operators
-- 
2.43.0


From b36b4e1b2010a6cdfac93969fa218017355ef0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 14/50] fix: give a location to the misplaced return convention
 error

---
 nsasm/parse.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index 7940ad7..bbdbd44 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -424,8 +424,9 @@ ErrorOr<Instruction> ParseInstruction(TokenSpan* pos) {
   if (!return_convention->IsDefault() && result->mnemonic != M_jsl &&
       result->mnemonic != M_jsr) {
     return nsasm::Error(
-        "return calling convention not supported on instruction %s",
-        nsasm::ToString(result->mnemonic));
+               "return calling convention not supported on instruction %s",
+               nsasm::ToString(result->mnemonic))
+        .SetLocation(Loc(pos));
   }
   result->return_convention = *return_convention;
   return result;
-- 
2.43.0


From 85833752b397ef9d5006b4cf8716ac17297f4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 15/50] fix: tokens after an unclosed parenthesis were parsed
 as the operand

---
 nsasm/parse.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index bbdbd44..b93d01f 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -367,10 +367,10 @@ ErrorOr<Instruction> ParseInstructionCore(TokenSpan* pos) {
         return CreateInstruction(mnemonic, suffix, SA_ind_y, Loc(pos),
                                  std::move(*arg1));
       }
-      // We have to abandon this attempt and go back to parsing this as an
-      // expression.
-      *pos = backup_pos;
     }
+    // We have to abandon this attempt and go back to parsing this as an
+    // expression.
+    *pos = backup_pos;
   }
 
   // We've tried everything else; now try a bare expression.
-- 
2.43.0


From c499d5818c60c465718200db3105dc7a25dc40dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 16/50] fix: give a location to the error for text after a
 return convention

---
 nsasm/parse.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index b93d01f..d55c711 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -428,6 +428,7 @@ ErrorOr<Instruction> ParseInstruction(TokenSpan* pos) {
                nsasm::ToString(result->mnemonic))
         .SetLocation(Loc(pos));
   }
+  NSASM_RETURN_IF_ERROR(ConfirmAtEnd(pos, "after return convention"));
   result->return_convention = *return_convention;
   return result;
 }
-- 
2.43.0


From 48f179295ef43c3cf64069ea210f56e08aa5aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 17/50] fix: a line reached along two paths was assembled under
 the flags of the last one

---
 nsasm/module.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index a5a2985..9d21fae 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -196,16 +196,21 @@ ErrorOr<void> Module::RunFirstPass() {
 
   while (!decode_stack.empty()) {
     // Consider the earliest statement that needs processing.
-    auto& node = *decode_stack.begin();
+    const std::pair<size_t, ExecutionState> node = *decode_stack.begin();
+    decode_stack.erase(decode_stack.begin());
     if (node.first == lines_.size()) {
       return Error("Execution continues past end of file");
     }
     Line& line = lines_[node.first];
-    const ExecutionState& current_state = node.second;
-    if (line.reached && line.incoming_state == current_state) {
-      // we've been here before under these conditions; nothing more to do
-      decode_stack.erase(decode_stack.begin());
-      continue;
+    ExecutionState current_state = node.second;
+    if (line.reached) {
+      // This line is entered along more than one path; it has to be analysed
+      // under the combination of all of their states.
+      current_state |= line.incoming_state;
+      if (line.incoming_state == current_state) {
+        // nothing new under these conditions; nothing more to do
+        continue;
+      }
     }
 
     line.reached = true;
-- 
2.43.0


From 7fa2deecca802785a4248337b98c7ec6ff583c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 18/50] fix: pulling a register of unknown size from an empty
 stack read out of bounds

---
 nsasm/execution_state.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index bc7fc73..79be25b 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -391,7 +391,8 @@ class Stack {
   // Pull a variable-sized object from the stack.  If that's not what's on top
   // of the stack, this fails.
   StackValue PullVarsize() {
-    if (abandoned_) {
+    if (abandoned_ || stack_.empty()) {
+      Abandon();
       return StackValue();
     }
     StackValue result = stack_.back();
-- 
2.43.0


From 558dbc4cc978b4ff90b6a0adaccdaf276d90b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 19/50] fix: pulling a register saved at its original size
 failed an assertion

---
 nsasm/execution_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index 79be25b..2885eec 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -291,7 +291,7 @@ struct StackValue {
 
   Type type() const { return type_; }
   uint8_t value() const {
-    assert(type_ == T_byte);
+    assert(type_ == T_byte || IsVarSize());
     return value_;
   }
   StatusFlags flags() const {
-- 
2.43.0


From 8e6ea0b1e8b754004aa1fa7b924a6848b9b19a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 20/50] fix: a known 16-bit register value was pulled with its
 bytes swapped

---
 nsasm/execution_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index 2885eec..b547436 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -460,7 +460,7 @@ class Stack {
         return RegisterValue(RegisterValue::T_original);
       } else if (lo_byte.type() == StackValue::T_byte &&
                  hi_byte.type() == StackValue::T_byte) {
-        return RegisterValue((lo_byte.value() << 8) + hi_byte.value());
+        return RegisterValue((hi_byte.value() << 8) + lo_byte.value());
       } else {
         return RegisterValue();
       }
-- 
2.43.0


From ef6133902881c7856204ddef62db63adb0eb2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 21/50] fix: XCE let the original carry pass for the original
 emulation bit

---
 nsasm/execution_state.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index b547436..9f47049 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -100,6 +100,10 @@ class StatusFlags {
     uint8_t old_c_bit = c_bit_;
     c_bit_ = e_bit_;
     e_bit_ = old_c_bit;
+    // "Original" refers to a bit's own initial value, so it doesn't survive
+    // being moved to another bit.
+    if (c_bit_ == B_original) c_bit_ = B_unknown;
+    if (e_bit_ == B_original) e_bit_ = B_unknown;
     m_bit_ = ConstrainedForEBit(MBit(), EBit());
     x_bit_ = ConstrainedForEBit(XBit(), EBit());
   }
-- 
2.43.0


From 288134dcc2a468a13f2952277baa6224a1885971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 22/50] fix: instructions that move the stack other than
 through A, X, Y and P were not tracked

---
 nsasm/instruction.cc | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 6ac13fb..89cf75b 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -356,6 +356,39 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   }
 
+  if (m == M_phb) {
+    es->GetStack().PushDBR(es->DataBankRegister());
+    return {};
+  }
+
+  if (m == M_plb) {
+    es->GetStack().PullByte();
+    es->DataBankRegister() = RegisterValue();
+    return {};
+  }
+
+  if (m == M_phk) {
+    es->GetStack().PushUnknownByte();
+    return {};
+  }
+
+  if (m == M_phd) {
+    es->GetStack().PushUnknownWord();
+    return {};
+  }
+
+  if (m == M_pld) {
+    es->GetStack().PullByte();
+    es->GetStack().PullByte();
+    return {};
+  }
+
+  // Moving the stack pointer loses track of what is on the stack.
+  if (m == M_tcs || m == M_txs) {
+    es->GetStack().Abandon();
+    return {};
+  }
+
   // Instructions that push or pull the status bits onto the stack.
   if (m == M_php) {
     es->PushFlags();
-- 
2.43.0


From 34cbc14c864348e2adfadf9b2da00fe10c946f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 23/50] fix: values outside the address space were used as
 addresses

---
 nsasm/address.h      |  9 +++++++++
 nsasm/instruction.cc | 13 ++++++++-----
 nsasm/module.cc      | 17 ++++++++++++-----
 3 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/nsasm/address.h b/nsasm/address.h
index 90a2a3b..ee3996e 100644
--- a/nsasm/address.h
+++ b/nsasm/address.h
@@ -24,6 +24,15 @@ class Address {
   explicit Address(uint8_t bank, uint16_t bank_address)
       : value_((bank << 16) | bank_address) {}
 
+  // Returns the address with the given value, or an error if it is not in the
+  // 24-bit address space.
+  static ErrorOr<Address> FromInt(int value) {
+    if (value < 0 || value > 0xffffff) {
+      return Error("Value %d is not an address", value);
+    }
+    return Address(static_cast<uint32_t>(value));
+  }
+
   constexpr int Bank() const { return value_ >> 16; }
   constexpr uint16_t BankAddress() const { return value_ & 0xffffu; }
 
diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 89cf75b..6e2fc3c 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -514,9 +514,10 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel8) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
-    nsasm::Address target(*val1);
+    auto target = nsasm::Address::FromInt(*val1);
+    NSASM_RETURN_IF_ERROR(target);
     nsasm::Address branch_base = address.AddWrapped(2);
-    auto offset = target.SubtractWrapped(branch_base);
+    auto offset = target->SubtractWrapped(branch_base);
     NSASM_RETURN_IF_ERROR(offset);
     if (*offset > 127 || *offset < -128) {
       return Error("Relative branch too far");
@@ -528,9 +529,10 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel16) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
-    nsasm::Address target(*val1);
+    auto target = nsasm::Address::FromInt(*val1);
+    NSASM_RETURN_IF_ERROR(target);
     nsasm::Address branch_base = address.AddWrapped(3);
-    auto offset = target.SubtractWrapped(branch_base);
+    auto offset = target->SubtractWrapped(branch_base);
     NSASM_RETURN_IF_ERROR(offset);
     int wrapped_offset = *offset & 0xffff;
     *(output++) = wrapped_offset & 0xff;
@@ -545,7 +547,8 @@ absl::optional<nsasm::Address> Instruction::FarBranchTarget(
   if (addressing_mode == A_dir_l && (mnemonic == M_jmp || mnemonic == M_jsl)) {
     auto target = arg1.Evaluate(NullLookupContext());
     if (target.ok()) {
-      return nsasm::Address(*target);
+      // The operand is encoded in three bytes.
+      return nsasm::Address(*target & 0xffffff);
     }
     return absl::nullopt;
   }
diff --git a/nsasm/module.cc b/nsasm/module.cc
index 9d21fae..211cbdc 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -262,7 +262,9 @@ ErrorOr<void> Module::RunFirstPass() {
     if (dir && dir->name == D_org) {
       auto v = dir->argument.Evaluate(NullLookupContext());
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(v, dir->location);
-      pc = nsasm::Address(*v);
+      auto org = nsasm::Address::FromInt(*v);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(org, dir->location);
+      pc = *org;
     }
     int statement_size = line.statement.SerializedSize();
     if (statement_size > 0 && !pc.has_value()) {
@@ -363,7 +365,9 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
     } else if (directive && directive->name == D_remote) {
       auto arg_val = directive->argument.Evaluate(context);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(arg_val, directive->location);
-      Address address(*arg_val);
+      auto remote = nsasm::Address::FromInt(*arg_val);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(remote, directive->location);
+      Address address = *remote;
       auto it = unnamed_targets_.find(address);
       if (it == unnamed_targets_.end()) {
         unnamed_targets_[address] = directive->flag_state_argument;
@@ -396,9 +400,12 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
       return Error("Label missing a value")
           .SetLocation(line.statement.Location());
     }
-    nsasm::Address address = line.value->ToAddress();
-    if (!address_to_global_.contains(address)) {
-      address_to_global_[address] = node.first;
+    auto address = nsasm::Address::FromInt(line.value->ToInt());
+    if (!address.ok()) {
+      continue;  // a .equ value that isn't an address
+    }
+    if (!address_to_global_.contains(*address)) {
+      address_to_global_[*address] = node.first;
     }
   }
   return {};
-- 
2.43.0


From 7771232edc5e2f3dd9c75e532354f38a5badda59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 24/50] fix: duplicate definitions were reported at a statement
 index, not a line

---
 nsasm/module.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 211cbdc..f038620 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -326,8 +326,7 @@ const std::map<FullIdentifier, Location> Module::ExportedNames() const {
   std::map<FullIdentifier, Location> result;
   for (const auto& node : global_to_line_) {
     FullIdentifier id(module_name_, node.first);
-    Location loc(path_, node.second);
-    result[std::move(id)] = std::move(loc);
+    result[std::move(id)] = lines_[node.second].statement.Location();
   }
   return result;
 }
-- 
2.43.0


From 626fe3ef2838bd8a9568ac7e3960f2334db2a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 25/50] fix: two assembly errors did not say which file they
 are about

---
 nsasm/assembler.cc | 3 ++-
 nsasm/module.cc    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nsasm/assembler.cc b/nsasm/assembler.cc
index f769bc3..e21b89e 100644
--- a/nsasm/assembler.cc
+++ b/nsasm/assembler.cc
@@ -104,7 +104,8 @@ nsasm::ErrorOr<void> Assembler::Assemble(OutputSink* sink) {
     if (!memory_module_map_.Insert(module->OwnedBytes(), module)) {
       // TODO: this could convey a lot more info...
       return nsasm::Error("Module `%s` writing to previously claimed memory",
-                          module->Name());
+                          module->Name())
+          .SetLocation(Location(module->Path()));
     }
   }
 
diff --git a/nsasm/module.cc b/nsasm/module.cc
index f038620..96cddfc 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -199,7 +199,8 @@ ErrorOr<void> Module::RunFirstPass() {
     const std::pair<size_t, ExecutionState> node = *decode_stack.begin();
     decode_stack.erase(decode_stack.begin());
     if (node.first == lines_.size()) {
-      return Error("Execution continues past end of file");
+      return Error("Execution continues past end of file")
+          .SetLocation(lines_.back().statement.Location());
     }
     Line& line = lines_[node.first];
     ExecutionState current_state = node.second;
-- 
2.43.0


From 587a06f2fa1306772a4f99df6798e398ca643315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 26/50] fix: the name chosen for an address depended on hash
 order

---
 nsasm/module.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 96cddfc..f5de45a 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -404,8 +404,12 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
     if (!address.ok()) {
       continue;  // a .equ value that isn't an address
     }
-    if (!address_to_global_.contains(*address)) {
+    // If several names have this value, use the alphabetically first one.
+    auto it = address_to_global_.find(*address);
+    if (it == address_to_global_.end()) {
       address_to_global_[*address] = node.first;
+    } else if (node.first < it->second) {
+      it->second = node.first;
     }
   }
   return {};
-- 
2.43.0


From 35d5435ecb8aa3854bed1f4f9cd1100137edf59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 27/50] fix: a .REMOTE directive was printed without its return
 convention

---
 nsasm/directive.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/directive.cc b/nsasm/directive.cc
index 3a85fdc..7774475 100644
--- a/nsasm/directive.cc
+++ b/nsasm/directive.cc
@@ -48,7 +48,8 @@ std::string Directive::ToString() const {
                         }));
     case DT_remote_arg:
       return absl::StrCat(nsasm::ToString(name), " ", argument.ToString(), " ",
-                          flag_state_argument.ToName());
+                          flag_state_argument.ToName(),
+                          return_convention_argument.ToSuffixString());
   }
   return "???";
 }
-- 
2.43.0


From f3b6e948ea4eb2fc42f4985bb23c7dccb9628b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 28/50] fix: instructions in the last three bytes before
 unreadable memory were not disassembled

---
 nsasm/disassemble.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 51e3d2f..2c6943e 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -9,6 +9,23 @@
 #include "nsasm/opcode_map.h"
 
 namespace nsasm {
+namespace {
+
+// Read the bytes of the longest instruction that could start at the given
+// address, or as many of them as are readable.
+ErrorOr<std::vector<uint8_t>> ReadInstruction(const InputSource& src,
+                                              nsasm::Address pc) {
+  auto data = src.Read(pc, 4);
+  for (int length = 3; !data.ok() && length > 0; --length) {
+    auto shorter = src.Read(pc, length);
+    if (shorter.ok()) {
+      return shorter;
+    }
+  }
+  return data;
+}
+
+}  // namespace
 
 ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     nsasm::Address starting_address, const StatusFlags& initial_status_flags) {
@@ -96,7 +113,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     if (!existing_instruction) {
       // This is the first time we've seen this address.  Try to disassemble
       // it.
-      auto instruction_data = src_->Read(pc, 4);
+      auto instruction_data = ReadInstruction(*src_, pc);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(instruction_data, src_->Path(), pc);
       auto instruction =
           Decode(*instruction_data, current_execution_state.Flags());
@@ -160,7 +177,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // Check that the instruction still decodes with the new flag state.
         // (We can throw the answer away if so, since we've already disassembled
         // this instruction before.)
-        auto instruction_data = src_->Read(pc, 4);
+        auto instruction_data = ReadInstruction(*src_, pc);
         NSASM_RETURN_IF_ERROR_WITH_LOCATION(
             Decode(*instruction_data, combined_execution_state.Flags()),
             src_->Path(), pc);
-- 
2.43.0


From a2777f925f05539f58c993450dad233bfefb9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 29/50] fix: a revisited call passed the state after its return
 to its target

---
 nsasm/disassemble.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 2c6943e..6452b98 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -200,7 +200,10 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // ... the far branch target ...
         auto far_branch_address = di.instruction.FarBranchTarget(pc);
         if (far_branch_address.has_value()) {
-          add_far_branch(*far_branch_address, next_execution_state);
+          // (the state after a call reflects its return, not its entry)
+          auto far_execution_state = combined_execution_state;
+          far_execution_state.WipeCarry();
+          add_far_branch(*far_branch_address, far_execution_state);
         }
         // ... and the local branch target.
         if (di.instruction.IsLocalBranch()) {
-- 
2.43.0


From 270922fabb4e1c581d92692f4203e81d3ec800d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 30/50] fix: CLC at the end of a bank was merged with an ADC in
 the next bank

---
 nsasm/disassemble.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 6452b98..893936d 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -306,6 +306,11 @@ ErrorOr<void> Disassembler::Cleanup() {
     if (next_iter == disassembly_.end()) {
       break;
     }
+    if (next_iter->first != iter->first.AddWrapped(1)) {
+      // Not consecutive instructions (the next one is in another bank).
+      iter = next_iter;
+      continue;
+    }
     if (iter->second.instruction.mnemonic == M_clc &&
         next_iter->second.instruction.mnemonic == M_adc &&
         next_iter->second.label.empty()) {
-- 
2.43.0


From 510118047535b08bede67235239c8f029f5b0130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 31/50] fix: an address that failed to disassemble was still
 marked as an entry point

---
 nsasm/disassemble.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 893936d..462b437 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -97,8 +97,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   ExecutionState initial_execution_state(initial_status_flags);
 
   add_to_decode_stack(starting_address, initial_execution_state);
-  // ensure entry point is marked, and has a label
-  entry_points_.insert(starting_address);
+  // ensure entry point has a label
   get_label(starting_address);
 
   while (!decode_stack.empty()) {
@@ -220,6 +219,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   }
 
   // If we got here, disassembly was a success.
+  entry_points_.insert(starting_address);
 
   // Add a suffix to each new disassembly instruction that supports one.
   for (auto& node : new_disassembly) {
-- 
2.43.0


From b3f4ee63b2ddee9259af61afb05e8bd9193aff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 32/50] fix: disassemble_more crashed: it read its ROM through
 a moved-from pointer

---
 util/disassemble_more.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 1346a4f..5b3fd1e 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -58,7 +58,14 @@ int main(int argc, char** argv) {
   std::map<nsasm::Address, nsasm::ReturnConvention> return_conventions =
       assembler->JumpTargetReturnConventions();
 
-  nsasm::Disassembler disassembler(*std::move(rom));
+  // The first copy of the ROM now belongs to `rom_identity_sink`.
+  auto disassembly_rom = nsasm::LoadRomFile(argv[1]);
+  if (!disassembly_rom.ok()) {
+    absl::PrintF("Error loading ROM: %s\n",
+                 disassembly_rom.error().ToString());
+    return 1;
+  }
+  nsasm::Disassembler disassembler(*std::move(disassembly_rom));
   disassembler.AddTargetReturnConventions(return_conventions);
 
   for (int pass = 0; pass < 100; ++pass) {
-- 
2.43.0


From bc746d61a6b0221e5448bb383acb4f9447b275e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 33/50] fix: disassemble_more printed the carry in .ENTRY,
 which cannot be assembled

---
 util/disassemble_more.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 5b3fd1e..297dfd3 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -112,7 +112,7 @@ int main(int argc, char** argv) {
       }
       if (value.second.is_entry) {
         absl::PrintF("%-8s .entry %s\n", label,
-                     value.second.current_execution_state.Flags().ToString());
+                     value.second.current_execution_state.Flags().ToName());
         label.clear();
       }
       std::string text =
-- 
2.43.0


From c8ab9995ebd2a30e5b7d0a22dbbae48d4d4a9ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 34/50] fix: quick_assemble exited with success when the output
 was not written

---
 util/quick_assemble.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/quick_assemble.cc b/util/quick_assemble.cc
index 35edc55..d350f7c 100644
--- a/util/quick_assemble.cc
+++ b/util/quick_assemble.cc
@@ -67,6 +67,7 @@ int main(int argc, char** argv) {
     auto write_status = overwriter.CreateFile(output_path);
     if (!write_status.ok()) {
       absl::PrintF("Error writing file: %s\n", write_status.error().ToString());
+      return 1;
     }
   }
   // assembler.DebugPrint();
-- 
2.43.0


From dc75d9877fb233a38ecc261f0b829b1fc9b7364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 35/50] fix: a width suffix was kept when the flag was no
 longer known

---
 nsasm/disassemble.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 462b437..ac6ea70 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -226,6 +226,8 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     Instruction& ins = node.second.instruction;
     const StatusFlags& flags = node.second.current_execution_state.Flags();
     StatusFlagUsed flag_used = FlagControllingInstructionSize(ins.mnemonic);
+    // An earlier disassembly may have known a flag that is not known any more.
+    ins.suffix = S_none;
     if (flag_used == kUsesMFlag) {
       if (flags.MBit() == B_on) {
         ins.suffix = S_b;
-- 
2.43.0


From f38a6ebb62f82064a1595da47f3d336d49100577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 36/50] fix: quick_disassemble used uninitialised or
 out-of-range addresses

---
 util/quick_disassemble.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 09a3fc4..10268b2 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -55,7 +55,7 @@ int main(int argc, char** argv) {
     const char* address = argv[idx];
     bool indirect = (address[0] == '@');
     if (indirect) ++address;
-    if (!sscanf(address, "%x", &rd_address)) {
+    if (sscanf(address, "%x", &rd_address) != 1 || rd_address > 0xffffff) {
       usage(argv[0]);
       return 1;
     }
-- 
2.43.0


From 72c3d16e6b10b9522d2aa243ceae7174e179daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 37/50] fix: dumb_disassemble used an uninitialised or
 out-of-range address

---
 util/dumb_disassemble.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index ab0ac17..4a2c8c3 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -28,8 +28,8 @@ int main(int argc, char** argv) {
   }
 
   unsigned hex_address;
-  if (!sscanf(argv[2], "%x", &hex_address)) {
-    usage(argv[2]);
+  if (sscanf(argv[2], "%x", &hex_address) != 1 || hex_address > 0xffffff) {
+    usage(argv[0]);
     return 1;
   }
 
-- 
2.43.0


From 5247585b16895d13373937a8d71210ce06f38e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 38/50] fix: dumb_disassemble failed on the last three bytes of
 a ROM

---
 util/dumb_disassemble.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index 4a2c8c3..c04d697 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -44,6 +44,13 @@ int main(int argc, char** argv) {
   std::map<nsasm::Address, nsasm::ExecutionState> local_jumps;
   while (true) {
     auto instruction_data = (*rom)->Read(address, 4);
+    // The last instruction before unreadable memory may be shorter than that.
+    for (int length = 3; !instruction_data.ok() && length > 0; --length) {
+      auto shorter = (*rom)->Read(address, length);
+      if (shorter.ok()) {
+        instruction_data = std::move(shorter);
+      }
+    }
     if (!instruction_data.ok()) {
       absl::PrintF("%s - ERROR: %s\n", address.ToString(),
                    instruction_data.error().ToString());
-- 
2.43.0


From 0af3805b68e70fee99f95558327a5c666132df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 39/50] fix: dumb_disassemble took the wrong carry to the
 target of BCC and BCS

---
 util/dumb_disassemble.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index c04d697..4f2c5d9 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -66,6 +66,7 @@ int main(int argc, char** argv) {
     int instruction_bytes =
         nsasm::InstructionLength(instruction->addressing_mode);
     nsasm::Address next_pc = address.AddWrapped(instruction_bytes);
+    auto branch_state = execution_state;
     auto status = instruction->Execute(&execution_state);
     if (!status.ok()) {
       absl::PrintF("%s - ERROR: %s\n", address.ToString(),
@@ -84,7 +85,14 @@ int main(int argc, char** argv) {
         local_branch_target +=
             absl::StrFormat(" (was %s)", prev_value->second.Flags().ToString());
       }
-      local_jumps[target] = execution_state;
+      // (the carry at the target of BCC or BCS is not the one after it)
+      status = instruction->ExecuteBranch(&branch_state);
+      if (!status.ok()) {
+        absl::PrintF("%s - ERROR: %s\n", address.ToString(),
+                     status.error().ToString());
+        return 1;
+      }
+      local_jumps[target] = branch_state;
     }
     std::string instruction_string = instruction->ToString();
     absl::PrintF("%s - %30s ; %s%s\n", address.ToString(), instruction_string,
-- 
2.43.0


From 4e4514dde128f8a75f037fb68c5bb6a28ed6426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 40/50] fix: the error about cyclic .equ definitions did not
 name a file

---
 nsasm/assembler.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nsasm/assembler.cc b/nsasm/assembler.cc
index e21b89e..162a6ec 100644
--- a/nsasm/assembler.cc
+++ b/nsasm/assembler.cc
@@ -54,7 +54,14 @@ nsasm::ErrorOr<std::vector<Module*>> Assembler::FindAssemblyOrder() {
     }
     if (!more_found) {
       // TODO: Return an error message explaining the cyclic dependency
-      return Error("Cyclic dependency in .equ definitions");
+      Error error("Cyclic dependency in .equ definitions");
+      for (auto& module : modules_) {
+        if (!already_inserted.contains(&module)) {
+          error.SetLocation(Location(module.Path()));
+          break;
+        }
+      }
+      return error;
     }
   }
   return order;
-- 
2.43.0


From c806a5610b84f9865955c6d568bee3940b26d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 41/50] fix: an error about an unexpected directive called it
 "logic error?"

---
 nsasm/token.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nsasm/token.cc b/nsasm/token.cc
index 501f818..ebf5e2d 100644
--- a/nsasm/token.cc
+++ b/nsasm/token.cc
@@ -51,6 +51,10 @@ std::string Token::ToString() const {
   if (mnemonic) {
     return absl::StrCat("mnemonic ", nsasm::ToString(*mnemonic));
   }
+  auto directive_name = DirectiveName();
+  if (directive_name) {
+    return absl::StrCat("directive ", nsasm::ToString(*directive_name));
+  }
   auto suffix = Suffix();
   if (suffix) {
     return absl::StrCat("suffix ", nsasm::ToString(*suffix));
-- 
2.43.0


From 627c45f0a9c68f640498f2a92430b36d66f13ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 42/50] fix: the error for a branch into another bank said only
 "Subtracting"

---
 nsasm/address.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/address.h b/nsasm/address.h
index ee3996e..f092138 100644
--- a/nsasm/address.h
+++ b/nsasm/address.h
@@ -59,7 +59,8 @@ class Address {
   // -65535.)
   ErrorOr<int> SubtractWrapped(Address rhs) const {
     if (Bank() != rhs.Bank()) {
-      return Error("Subtracting ");
+      return Error("Addresses %s and %s are not in the same bank", ToString(),
+                   rhs.ToString());
     }
     int offset =
         (unsigned(BankAddress()) - unsigned(rhs.BankAddress())) & 0xffffu;
-- 
2.43.0


From c8af0b5d6073ba2548e770abe689d87e6bb42899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 43/50] fix: saving to a full disk leaked the file handle

---
 nsasm/rom.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index e57a705..41fa2e1 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -198,11 +198,13 @@ ErrorOr<void> RomOverwriter::CreateFile(const std::string& path) const {
   if (!rom_->header_.empty()) {
     size_t written = fwrite(&rom_->header_[0], 1, 0x200, f);
     if (written != 0x200) {
+      fclose(f);
       return Error("Failed to write header").SetLocation(path);
     }
   }
   size_t written = fwrite(&data_[0], 1, data_.size(), f);
   if (written != data_.size()) {
+    fclose(f);
     return Error("Failed to write payload").SetLocation(path);
   }
   if (fclose(f) != 0) {
-- 
2.43.0


From d1bbc4d5ad4257c7f74cf1b17a2265fee8423af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 44/50] fix: the size of a file over 4 GiB was truncated, and
 its start loaded as a ROM

---
 nsasm/rom.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 41fa2e1..89deeac 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -95,11 +95,16 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
     fclose(f);
     return Error("Failed to read file").SetLocation(path);
   }
-  int file_size = ftell(f);
-  if (file_size <= 0) {
+  long full_size = ftell(f);
+  if (full_size <= 0) {
     fclose(f);
     return Error("Failed to read file").SetLocation(path);
   }
+  if (full_size > 0x7fffffff) {
+    fclose(f);
+    return Error("File is too large to be an SNES ROM").SetLocation(path);
+  }
+  int file_size = static_cast<int>(full_size);
   // A SNES rom is in 0x1000-byte page chunks.  SNES ROM files usually contain a
   // 0x0200-byte header in addition to this.  If neither of these is consistent,
   // the ROM is corrupt.
-- 
2.43.0


From 5525489073f487486d15fc51e4dd9840726d6a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 45/50] fix: a very long expression overflowed the stack

---
 nsasm/parse.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index d55c711..f22aab0 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -13,7 +13,12 @@ namespace {
 // factor -> comp | -factor | >factor | <factor | ^factor
 // comp   -> literal | identifier | (expr)
 
+// The longest expression accepted, in tokens.  Expressions are parsed and
+// evaluated recursively.
+constexpr int kMaxExpressionTokens = 1024;
+
 ErrorOr<ExpressionOrNull> Expr(TokenSpan* pos);
+ErrorOr<ExpressionOrNull> SubExpr(TokenSpan* pos);
 ErrorOr<ExpressionOrNull> Term(TokenSpan* pos);
 ErrorOr<ExpressionOrNull> Factor(TokenSpan* pos);
 ErrorOr<ExpressionOrNull> Comp(TokenSpan* pos);
@@ -90,6 +95,17 @@ ErrorOr<StatusFlags> Mode(TokenSpan* pos) {
 }
 
 ErrorOr<ExpressionOrNull> Expr(TokenSpan* pos) {
+  TokenSpan rest = *pos;
+  for (int size = 0; !AtEnd(&rest) && rest.front() != ','; ++size) {
+    if (size == kMaxExpressionTokens) {
+      return Error("Expression is too long").SetLocation(Loc(pos));
+    }
+    rest.remove_prefix(1);
+  }
+  return SubExpr(pos);
+}
+
+ErrorOr<ExpressionOrNull> SubExpr(TokenSpan* pos) {
   auto term_or_error = Term(pos);
   NSASM_RETURN_IF_ERROR(term_or_error);
   ExpressionOrNull term = std::move(*term_or_error);
@@ -207,7 +223,7 @@ ErrorOr<ExpressionOrNull> Comp(TokenSpan* pos) {
   }
   if (pos->front() == '(') {
     pos->remove_prefix(1);
-    auto parenthesized = Expr(pos);
+    auto parenthesized = SubExpr(pos);
     NSASM_RETURN_IF_ERROR(parenthesized);
     NSASM_RETURN_IF_ERROR(Consume(pos, ')', "close parenthesis"));
     return parenthesized;
-- 
2.43.0


From bcf1cf62aa7ae0a277652cbf482c52b0821127cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 46/50] fix: a stack-relative store left the tracked stack as
 it was

STA n,S can replace flags that were pushed earlier, which a later PLP
then restores.
---
 nsasm/execution_state.h | 18 ++++++++++++++++++
 nsasm/instruction.cc    | 12 ++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index 9f47049..a28d3a4 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -392,6 +392,24 @@ class Stack {
     return result;
   }
 
+  // Replace `count` bytes of the stack with unknown values, upwards from the
+  // one `offset` bytes above the stack pointer.  (The byte on top of the stack
+  // is at offset 1.)  Bytes that don't belong to this stack are ignored.
+  void Overwrite(int offset, int count) {
+    const int size = stack_.size();
+    for (int i = 1; i < offset + count && i <= size; ++i) {
+      StackValue& value = stack_[size - i];
+      if (value.IsVarSize()) {
+        // There's no telling where the bytes below this one are.
+        Abandon();
+        return;
+      }
+      if (i >= offset) {
+        value = StackValue();
+      }
+    }
+  }
+
   // Pull a variable-sized object from the stack.  If that's not what's on top
   // of the stack, this fails.
   StackValue PullVarsize() {
diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 6e2fc3c..86dd41b 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -286,6 +286,18 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   }
 
+  // Stack relative stores can change what was pushed earlier.
+  if (m == M_sta && addressing_mode == A_stk) {
+    auto arg = maybe_arg1();
+    if (arg.has_value()) {
+      es->GetStack().Overwrite(*arg & 0xff,
+                               es->Flags().MBit() == B_on ? 1 : 2);
+    } else {
+      es->GetStack().Overwrite(0, 0x101);
+    }
+    return {};
+  }
+
   if (m == M_mvn || m == M_mvp) {
     auto initial_a = maybe_arg1();
     if (es->Flags().MBit() == B_on) {
-- 
2.43.0


From 320cd2bbf127cc37de80d159be0f834ae77f9274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 47/50] fix: register values outlived instructions that change
 them

Loads from memory, transfers, calls and changes of width left the tracked
values of A, X, Y and DBR in place, and MVN and MVP moved X and Y by a bank
number rather than by the count in A.
---
 nsasm/execution_state.h | 14 +++++++++++
 nsasm/instruction.cc    | 56 ++++++++++++++++++++++++++++++-----------
 2 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index a28d3a4..0c8c99a 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -604,6 +604,20 @@ class ExecutionState {
   }
 
   void WipeAccumulator() { a_reg_ = RegisterValue(); }
+  void WipeIndexRegisters() {
+    x_reg_ = RegisterValue();
+    y_reg_ = RegisterValue();
+  }
+  // Forget the values of registers which may not be as wide as they were when
+  // the flags were `old_flags`.
+  void WipeResizedRegisters(const StatusFlags& old_flags) {
+    if (flags_.MBit() == B_unknown || flags_.MBit() != old_flags.MBit()) {
+      WipeAccumulator();
+    }
+    if (flags_.XBit() == B_unknown || flags_.XBit() != old_flags.XBit()) {
+      WipeIndexRegisters();
+    }
+  }
   void WipeCarry() { flags_.SetCBit(B_unknown); }
 
   RegisterValue& Accumulator() { return a_reg_; }
diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 86dd41b..4c8b005 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -181,6 +181,7 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
 
   // Instructions that clear or set status bits explicitly
   if (m == M_rep || m == M_sep) {
+    const StatusFlags old_flags = es->Flags();
     BitState target = (m == M_rep) ? B_off : B_on;
     auto arg = maybe_arg1();
     if (!arg.has_value()) {
@@ -199,6 +200,7 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
       if (es->Flags().MBit() != target) {
         es->Flags().SetMBit(B_unknown);
       }
+      es->WipeResizedRegisters(old_flags);
       return {};
     }
 
@@ -212,6 +214,7 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     if (*arg & 0x20) {
       es->Flags().SetMBit(target);
     }
+    es->WipeResizedRegisters(old_flags);
     return {};
   }
 
@@ -266,26 +269,40 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
   }
 
   if (m == M_lda || m == M_ldx || m == M_ldy) {
+    RegisterValue* reg;
+    if (m == M_lda) {
+      reg = &es->Accumulator();
+    } else if (m == M_ldx) {
+      reg = &es->XRegister();
+    } else {
+      reg = &es->YRegister();
+    }
+    // The contents of memory aren't known.
+    *reg = RegisterValue();
     if (addressing_mode == A_imm_b || addressing_mode == A_imm_fx ||
         addressing_mode == A_imm_fm || addressing_mode == A_imm_w) {
-      RegisterValue* reg;
-      if (m == M_lda) {
-        reg = &es->Accumulator();
-      } else if (m == M_ldx) {
-        reg = &es->XRegister();
-      } else {
-        reg = &es->YRegister();
-      }
       auto arg = maybe_arg1();
-      if (!arg.has_value()) {
-        *reg = RegisterValue();
-      } else {
+      if (arg.has_value()) {
         *reg = *arg;
       }
     }
     return {};
   }
 
+  // Transfers between registers.
+  if (m == M_txa || m == M_tya || m == M_tdc || m == M_tsc || m == M_xba) {
+    es->WipeAccumulator();
+    return {};
+  }
+  if (m == M_tax || m == M_tsx || m == M_tyx) {
+    es->XRegister() = RegisterValue();
+    return {};
+  }
+  if (m == M_tay || m == M_txy) {
+    es->YRegister() = RegisterValue();
+    return {};
+  }
+
   // Stack relative stores can change what was pushed earlier.
   if (m == M_sta && addressing_mode == A_stk) {
     auto arg = maybe_arg1();
@@ -299,7 +316,11 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
   }
 
   if (m == M_mvn || m == M_mvp) {
-    auto initial_a = maybe_arg1();
+    // The number of bytes moved is one more than the 16-bit accumulator.
+    absl::optional<int> initial_a;
+    if (es->Flags().MBit() == B_off && es->Accumulator().HasValue()) {
+      initial_a = *es->Accumulator();
+    }
     if (es->Flags().MBit() == B_on) {
       es->Accumulator() = 0xff;
     } else if (es->Flags().MBit() == B_off) {
@@ -308,8 +329,7 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
       es->WipeAccumulator();
     }
     if (!initial_a.has_value()) {
-      es->XRegister() = RegisterValue();
-      es->YRegister() = RegisterValue();
+      es->WipeIndexRegisters();
     } else {
       // X and Y are adjusted per the accumulator
       int mask = (es->Flags().XBit() == B_on) ? 0xff : 0xffff;
@@ -406,14 +426,18 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     es->PushFlags();
     return {};
   } else if (m == M_plp) {
+    const StatusFlags old_flags = es->Flags();
     es->PullFlags();
+    es->WipeResizedRegisters(old_flags);
     return {};
   }
 
   // Instruction that swaps the c and e bits.  This can change the
   // m and x bits as a side effect.
   if (m == M_xce) {
+    const StatusFlags old_flags = es->Flags();
     es->Flags().ExchangeCE();
+    es->WipeResizedRegisters(old_flags);
     return {};
   }
 
@@ -427,6 +451,10 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
       es->Flags() = *yield_flags;
     }
     es->Flags().SetCBit(B_unknown);
+    // Registers aren't part of the return convention, either.
+    es->WipeAccumulator();
+    es->WipeIndexRegisters();
+    es->DataBankRegister() = RegisterValue();
     return {};
   }
 
-- 
2.43.0


From 95771098bc50ce7ac8272873f0e4017fa724a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 48/50] fix: .entry and names without an address were reported
 as logic errors

---
 nsasm/module.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index f5de45a..5ac99a3 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -355,7 +355,7 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
       }
     } else if (directive && directive->name == D_entry) {
       if (!line.value.has_value()) {
-        return Error("logic error: no address for .entry directive")
+        return Error("No address given for .entry directive")
             .SetLocation(line.statement.Location());
       }
       Address address = line.value->ToAddress();
@@ -446,7 +446,7 @@ ErrorOr<LabelValue> Module::ValueForName(const FullIdentifier& id) const {
   if (value.has_value()) {
     return *value;
   }
-  return Error("logic error: No value at label %s", id.ToString());
+  return Error("Value '%s' accessed before definition", id.ToString());
 }
 
 absl::optional<FullIdentifier> Module::NameForAddress(
-- 
2.43.0


From fbe1b8fde7f0756613b7db8847bab7b6134a29a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 49/50] fix: code more than 100 calls away from the start was
 left out of listings

---
 util/disassemble_more.cc  | 2 +-
 util/quick_disassemble.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 297dfd3..9339fc6 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -68,7 +68,7 @@ int main(int argc, char** argv) {
   nsasm::Disassembler disassembler(*std::move(disassembly_rom));
   disassembler.AddTargetReturnConventions(return_conventions);
 
-  for (int pass = 0; pass < 100; ++pass) {
+  while (!seeds.empty()) {
     std::map<nsasm::Address, nsasm::StatusFlags> new_seeds;
     for (const auto& node : seeds) {
       if (assembler->Contains(node.first)) {
diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 10268b2..13a6819 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -72,7 +72,7 @@ int main(int argc, char** argv) {
 
   nsasm::Disassembler disassembler(std::move(*rom));
 
-  for (int pass = 0; pass < 100; ++pass) {
+  while (!seeds.empty()) {
     std::map<nsasm::Address, nsasm::StatusFlags> new_seeds;
     for (const auto& node : seeds) {
       auto branch_targets = disassembler.Disassemble(node.first, node.second);
-- 
2.43.0


From e404f829395009433db5fc835eb72f935b2c8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:32 +0000
Subject: [PATCH 50/50] fix: only the first of several requests for an address
 was honoured

---
 util/quick_disassemble.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 13a6819..54b478e 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -67,7 +67,8 @@ int main(int argc, char** argv) {
       }
       rd_address = *indirect_address;
     }
-    seeds.emplace(nsasm::Address(rd_address), *parsed_flag);
+    // The same address may be given more than once, with different modes.
+    CombineStates(&seeds, {{nsasm::Address(rd_address), *parsed_flag}});
   }
 
   nsasm::Disassembler disassembler(std::move(*rom));
-- 
2.43.0

