From 5f2a4ec9b0e1b006dca5f62d39075a2b39dfccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:17 +0000
Subject: [PATCH 01/23] fix: encode displacements 128..=256 as disp32, a disp8
 is sign-extended

---
 at-x64/src/encoder/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/at-x64/src/encoder/mod.rs b/at-x64/src/encoder/mod.rs
index febf990..192cbaa 100644
--- a/at-x64/src/encoder/mod.rs
+++ b/at-x64/src/encoder/mod.rs
@@ -310,13 +310,13 @@ impl RegMemLike for Mem64 {
             // treat [RBP] and [R13] as [RBP + 0] and [R13 + 0] resprectively
             RegOffset(RBP | R13, 0) => 0b01,
             RegOffset(_, 0) => 0b00,
-            RegOffset(_, 1..=256) => 0b01,
+            RegOffset(_, 1..=127) => 0b01,
             RegOffset(_, _) => 0b10,
             RipOffset(_) => 0b00,
             Sib { base: None, .. } => 0b00,
             Sib {
                 base: Some(RBP | R13),
-                disp: 0..=256,
+                disp: 0..=127,
                 ..
             } => 0b01,
             Sib {
@@ -324,7 +324,7 @@ impl RegMemLike for Mem64 {
                 ..
             } => 0b10,
             Sib { disp: 0, .. } => 0b00,
-            Sib { disp: 1..=256, .. } => 0b01,
+            Sib { disp: 1..=127, .. } => 0b01,
             Sib { .. } => 0b10,
         }
     }
@@ -370,7 +370,7 @@ impl RegMemLike for Mem64 {
         match self {
             RegOffset(RBP | R13, 0) => BytesAtMost::from(0 as u8),
             RegOffset(_, 0) => BytesAtMost::with_len(0),
-            RegOffset(_, disp @ 1..=256) => BytesAtMost::from(*disp as u8),
+            RegOffset(_, disp @ 1..=127) => BytesAtMost::from(*disp as u8),
             RegOffset(_, disp) => BytesAtMost::from(*disp),
             RipOffset(disp) => BytesAtMost::from(*disp),
             Sib {
@@ -383,7 +383,7 @@ impl RegMemLike for Mem64 {
             } => BytesAtMost::from(0u8),
             Sib { disp: 0, .. } => BytesAtMost::with_len(0),
             Sib {
-                disp: disp @ 1..=256,
+                disp: disp @ 1..=127,
                 ..
             } => BytesAtMost::from(*disp as u8),
             Sib { disp, .. } => BytesAtMost::from(*disp),
-- 
2.43.0


From 76b13a7f4b4465ad901a689d35e122061c9922ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:17 +0000
Subject: [PATCH 02/23] fix: decode stab entries from the whole n_type byte

---
 at-mac/src/nlist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-mac/src/nlist.rs b/at-mac/src/nlist.rs
index 76b1135..f928991 100644
--- a/at-mac/src/nlist.rs
+++ b/at-mac/src/nlist.rs
@@ -91,7 +91,7 @@ impl NTypeField {
                 n_ext,
             }
         } else {
-            NTypeField::Stab(DebugSymbol::from_u8(n_stab))
+            NTypeField::Stab(DebugSymbol::from_u8(n))
         }
     }
 
-- 
2.43.0


From b347c6db426d302a2d9b4c1c542ab03ad0255a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:17 +0000
Subject: [PATCH 03/23] fix: absolute symbols belong to no section

---
 at-obj/src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 3455a0f..0ea59c2 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -328,7 +328,7 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
                         n_type: NType::Abs,
                         n_ext: *ext,
                     },
-                    n_sect: idx as u8,
+                    n_sect: NList64::NO_SECT,
                     n_desc: 0,
                     n_value: *val,
                 },
-- 
2.43.0


From b98c54318b4983b79a170ee97af55e6f5406ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:32 +0000
Subject: [PATCH 04/23] fix: segment filesize must not count the padding after
 the section data

---
 at-obj/src/macho.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 0ea59c2..c641e5d 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -106,8 +106,7 @@ fn gen_segment_command64(object: &Object) -> SegmentCommand64 {
             .sections()
             .iter()
             .map(|sect| sect.file_size())
-            .sum::<u32>()
-            .aligned(8) as u64,
+            .sum::<u32>() as u64,
         // object fileのprotectionは常に7
         // つまりrwxの全てのbitが立っている状態
         maxprot: 7,
-- 
2.43.0


From c9687672c61f7d9fcf1fa789154c6e3a35d6e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:32 +0000
Subject: [PATCH 05/23] fix: keep an empty section that defines symbols, its
 symbols were dropped

---
 at-obj/src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/object.rs b/at-obj/src/object.rs
index c0ced39..cb8e329 100644
--- a/at-obj/src/object.rs
+++ b/at-obj/src/object.rs
@@ -76,7 +76,7 @@ impl<'a> SectionRef<'a> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.vm_size() == 0
+        self.vm_size() == 0 && self.symbols().is_empty()
     }
 
     pub(crate) fn file_data(&self) -> &[u8] {
-- 
2.43.0


From 4bacc2ac51fdd06286cce2354713da4e4c03d37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:31 +0000
Subject: [PATCH 06/23] fix: push must not sign-extend literals with the top
 bit set

---
 at-asm/src/parsers/instruction/push.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 26cd032..1e98a2d 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -26,14 +26,17 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         return Ok(Instruction::new(push));
     }
 
+    // immediates are sign-extended to 64bit, so only use an encoding
+    // whose sign bit the operand leaves clear.
+
     // if operand is u8
-    if let Some(imm) = u8::try_parse_str(operand_str)? {
+    if let Some(imm @ 0..=0x7F) = u8::try_parse_str(operand_str)? {
         let push = Push::new(imm);
         return Ok(Instruction::new(push));
     }
 
     // if operand is u32
-    if let Some(imm) = u32::try_parse_str(operand_str)? {
+    if let Some(imm @ 0..=0x7FFF_FFFF) = u32::try_parse_str(operand_str)? {
         let push = Push::new(imm);
         return Ok(Instruction::new(push));
     }
-- 
2.43.0


From adc6d19523e80764e007d5c4142ef3fb52b21d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:32 +0000
Subject: [PATCH 07/23] fix: reject operands push, ret and syscall do not take

---
 at-asm/src/parsers/instruction/mod.rs  | 5 ++++-
 at-asm/src/parsers/instruction/push.rs | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/mod.rs b/at-asm/src/parsers/instruction/mod.rs
index 9eb96f8..7914f8f 100644
--- a/at-asm/src/parsers/instruction/mod.rs
+++ b/at-asm/src/parsers/instruction/mod.rs
@@ -40,9 +40,12 @@ impl Instruction {
 
 impl ParseStr for Instruction {
     fn try_parse_str(s: &str) -> Result<Option<Instruction>, ParseError> {
-        match s.split_whitespace().next() {
+        let mut tokens = s.split_whitespace();
+
+        match tokens.next() {
             Some("mov") => Ok(Some(mov::parse_str(s)?)),
             Some("push") => Ok(Some(push::parse_str(s)?)),
+            Some("ret" | "syscall") if tokens.next().is_some() => Err(ParseError::eol_expected()),
             Some("ret") => Ok(Some(Instruction::new(Ret::new()))),
             Some("syscall") => Ok(Some(Instruction::new(Syscall::new()))),
             _ => Ok(None),
diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 1e98a2d..71b6a47 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -20,6 +20,10 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
     };
 
+    if tokens.next().is_some() {
+        return Err(ParseError::eol_expected());
+    }
+
     // if operand is Reg64
     if let Some(reg) = Reg64::try_parse_str(operand_str)? {
         let push = Push::new(reg);
-- 
2.43.0


From 4d76d54f3aaf8e13f4ef9d5d62bccea516b61172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:32 +0000
Subject: [PATCH 08/23] fix: constant expressions wrap instead of overflowing

---
 at-asm/src/parsers/expr.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index 053dd65..f411f3e 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,9 +54,13 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
-        let res = lhs as i64 + sign_to_u64(sign) * rhs as i64;
+        let res = if sign {
+            lhs.wrapping_add(rhs)
+        } else {
+            lhs.wrapping_sub(rhs)
+        };
 
-        Ok(Some(Expr(res as u64)))
+        Ok(Some(Expr(res)))
     }
 
     fn parse_str(s: &str) -> Result<Self, ParseError> {
@@ -67,10 +71,6 @@ impl ParseStr for Expr {
     }
 }
 
-fn sign_to_u64(sign: bool) -> i64 {
-    sign as i64 * 2 - 1
-}
-
 enum Token {
     Num(u64),
     Plus,
-- 
2.43.0


From 340adc67c11306de1df2894dd6f540a10789f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:33 +0000
Subject: [PATCH 09/23] fix: do not drop what follows a two-term expression

---
 at-asm/src/parsers/expr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index f411f3e..4265245 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,6 +54,10 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
+        if tokens.next().is_some() {
+            return Err(ParseError::eol_expected());
+        }
+
         let res = if sign {
             lhs.wrapping_add(rhs)
         } else {
-- 
2.43.0


From b8ddfc3f1dbc01ecf8cfd53a9cb6de6a1759a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:34 +0000
Subject: [PATCH 10/23] fix: accept any whitespace after mov

---
 at-asm/src/parsers/instruction/mov.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index c65863c..b26c5ba 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -10,7 +10,7 @@ use at_x64::{
 pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     let (opcode, remain) = s
         .trim()
-        .split_once(" ")
+        .split_once(char::is_whitespace)
         .ok_or_else(|| ParseError::new("invalid mov instruction format"))?;
     if opcode != "mov" {
         return Err(ParseError::new("not mov opcode"));
-- 
2.43.0


From a9fae1c8ea2a349a46142fa9c3c733597b7e07ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:34 +0000
Subject: [PATCH 11/23] fix: a semicolon inside a string literal starts no
 comment

---
 at-asm/src/parsers/line.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index 9fb9933..3567f4d 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -15,10 +15,7 @@ pub enum Line {
 impl ParseStr for Line {
     fn parse_str(s: &str) -> Result<Self, ParseError> {
         // コメントを無視
-        let s = match s.split_once(";") {
-            Some((s, _)) => s,
-            None => s,
-        };
+        let s = strip_comment(s);
 
         let mut tokens = s.split_whitespace();
 
@@ -66,3 +63,16 @@ impl ParseStr for Line {
         Ok(Some(Self::parse_str(s)?))
     }
 }
+
+// 文字列リテラルの中の ';' はコメントではない
+fn strip_comment(s: &str) -> &str {
+    let mut in_str = false;
+    for (idx, c) in s.char_indices() {
+        match c {
+            '"' => in_str = !in_str,
+            ';' if !in_str => return &s[..idx],
+            _ => {}
+        }
+    }
+    s
+}
-- 
2.43.0


From 5c86e2efd8ca4b72fdbe5bcbf79270ac3d15a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:35 +0000
Subject: [PATCH 12/23] fix: a number has at most one 0x prefix

---
 at-asm/src/parsers/num.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/num.rs b/at-asm/src/parsers/num.rs
index 4a167ba..3adbb81 100644
--- a/at-asm/src/parsers/num.rs
+++ b/at-asm/src/parsers/num.rs
@@ -7,8 +7,7 @@ macro_rules! impl_parse_str {
             /// Never error.
             /// Because another number format possibly fit.
             fn try_parse_str(s: &str) -> Result<Option<Self>, ParseError> {
-                if s.starts_with("0x") {
-                    let s = s.trim_start_matches("0x");
+                if let Some(s) = s.strip_prefix("0x") {
                     Ok(Self::from_str_radix(s, 16).ok())
                 } else {
                     Ok(Self::from_str_radix(s, 10).ok())
-- 
2.43.0


From 92d395cf7e27b957b2158013b45d82d968c0a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:00 +0000
Subject: [PATCH 13/23] fix: diagnose a relocation in .bss instead of panicking

---
 at-asm/src/assembler.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/assembler.rs b/at-asm/src/assembler.rs
index e78accf..37c4f1a 100644
--- a/at-asm/src/assembler.rs
+++ b/at-asm/src/assembler.rs
@@ -145,7 +145,10 @@ impl<'a> SectionMut<'a> {
         match self {
             Text(text) => text.relocs.push(reloc),
             Data(data) => data.relocs.push(reloc),
-            Bss(_) => panic!("relocation entry in bss section is not supported"),
+            Bss(_) => {
+                eprintln!("error: relocation entry in bss section is not supported");
+                exit(1);
+            }
         }
     }
 
-- 
2.43.0


From 7f36f6c4b2e6f3a494283ac0b9ff7dd23aea0884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:01 +0000
Subject: [PATCH 14/23] fix: diagnose a reference to an undefined symbol
 instead of panicking

---
 at-asm/src/assembler.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/at-asm/src/assembler.rs b/at-asm/src/assembler.rs
index 37c4f1a..d865e68 100644
--- a/at-asm/src/assembler.rs
+++ b/at-asm/src/assembler.rs
@@ -108,6 +108,14 @@ impl Assembler {
     }
 
     pub fn write_into<W: Write>(&self, write: &mut W) {
+        let sections = &self.obj.sections;
+        for reloc in sections.text.relocs.iter().chain(&sections.data.relocs) {
+            if !self.obj.symbols().any(|s| s.name() == reloc.symbol) {
+                eprintln!("error: undefined symbol {}", reloc.symbol);
+                exit(1);
+            }
+        }
+
         macho::write_into(&self.obj, write);
     }
 }
-- 
2.43.0


From 43de1f74b4a69344a24c266b098cbce1e3fa45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:02 +0000
Subject: [PATCH 15/23] fix: diagnose symbol names a string table cannot hold

---
 at-asm/src/parsers/line.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index 3567f4d..e6a82fa 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -43,11 +43,15 @@ impl ParseStr for Line {
                 return Err(ParseError::new("error: expected end of line."));
             }
             let symbol = token.trim_end_matches(":");
+            check_symbol_name(symbol)?;
             return Ok(Line::Symbol(symbol.to_string()));
         }
 
         // data
         if let Some(data) = Data::try_parse_str(s)? {
+            if let Some(label) = &data.label {
+                check_symbol_name(label)?;
+            }
             return Ok(Line::Data(data));
         }
 
@@ -64,6 +68,15 @@ impl ParseStr for Line {
     }
 }
 
+// シンボル名は NUL 終端の ASCII 文字列として書き出される
+fn check_symbol_name(name: &str) -> Result<(), ParseError> {
+    if name.chars().all(|c| c.is_ascii() && c != '\0') {
+        Ok(())
+    } else {
+        Err(ParseError::new("symbol name must be ascii"))
+    }
+}
+
 // 文字列リテラルの中の ';' はコメントではない
 fn strip_comment(s: &str) -> &str {
     let mut in_str = false;
-- 
2.43.0


From 69c425dc668515fe583d7b2a72e6b403ba4b10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:03 +0000
Subject: [PATCH 16/23] fix: diagnose source that cannot be read or is not
 UTF-8

---
 at-asm/src/assembler.rs | 10 +++++++++-
 at-asm/src/reader.rs    | 10 +++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/at-asm/src/assembler.rs b/at-asm/src/assembler.rs
index d865e68..843fff9 100644
--- a/at-asm/src/assembler.rs
+++ b/at-asm/src/assembler.rs
@@ -38,7 +38,15 @@ impl Assembler {
     pub fn read_from<R: Read>(&mut self, read: &mut R) -> &mut Self {
         let mut reader = Reader::new(read);
 
-        while let Some(line) = reader.next_line() {
+        loop {
+            let line = match reader.next_line() {
+                Ok(Some(line)) => line,
+                Ok(None) => break,
+                Err(err) => {
+                    eprintln!("error at line {}: {}", self.cur_line + 1, err);
+                    exit(1);
+                }
+            };
             self.cur_line += 1;
 
             let parsed_line = match Line::parse_str(line) {
diff --git a/at-asm/src/reader.rs b/at-asm/src/reader.rs
index 88f32c6..a4e4549 100644
--- a/at-asm/src/reader.rs
+++ b/at-asm/src/reader.rs
@@ -1,4 +1,4 @@
-use std::io::{BufRead as _, BufReader, Read};
+use std::io::{BufRead as _, BufReader, Read, Result};
 
 pub struct Reader<R> {
     reader: BufReader<R>,
@@ -13,13 +13,13 @@ impl<R: Read> Reader<R> {
         }
     }
 
-    pub fn next_line(&mut self) -> Option<&str> {
+    pub fn next_line(&mut self) -> Result<Option<&str>> {
         self.buf.clear();
 
-        if self.reader.read_line(&mut self.buf).unwrap() == 0 {
-            return None; // EOF
+        if self.reader.read_line(&mut self.buf)? == 0 {
+            return Ok(None); // EOF
         }
 
-        Some(self.buf.as_str())
+        Ok(Some(self.buf.as_str()))
     }
 }
-- 
2.43.0


From 6663d158f52b479bced1dc0c12de85f30225e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 17/23] fix: open the output file only after the source has
 been assembled

---
 at-asm/src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 6c022fb..0192094 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -1,5 +1,5 @@
 use at_asm::Assembler;
-use std::{fs::OpenOptions, path::PathBuf, process::exit};
+use std::{fs::OpenOptions, io::Write as _, path::PathBuf, process::exit};
 
 pub fn main() {
     let config = Config::init();
@@ -9,6 +9,13 @@ pub fn main() {
         .open(&config.input_path)
         .unwrap();
 
+    // assembleに失敗したときに既存のoutput fileを壊さないように,
+    // 全てassembleし終えてからoutput fileを開く
+    let mut object = Vec::new();
+    Assembler::new()
+        .read_from(&mut input_file)
+        .write_into(&mut object);
+
     let mut output_file = OpenOptions::new()
         .write(true)
         .truncate(true)
@@ -16,9 +23,7 @@ pub fn main() {
         .open(&config.output_path)
         .unwrap();
 
-    Assembler::new()
-        .read_from(&mut input_file)
-        .write_into(&mut output_file);
+    output_file.write_all(&object).unwrap();
 }
 
 struct Config {
-- 
2.43.0


From 5ebc80a6f3c4563f39df8834f879a07a664f2516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 18/23] fix: diagnose files that cannot be opened or written
 instead of panicking

---
 at-asm/src/main.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 0192094..4397a28 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -1,5 +1,10 @@
 use at_asm::Assembler;
-use std::{fs::OpenOptions, io::Write as _, path::PathBuf, process::exit};
+use std::{
+    fs::OpenOptions,
+    io::{self, Write as _},
+    path::{Path, PathBuf},
+    process::exit,
+};
 
 pub fn main() {
     let config = Config::init();
@@ -7,7 +12,7 @@ pub fn main() {
     let mut input_file = OpenOptions::new()
         .read(true)
         .open(&config.input_path)
-        .unwrap();
+        .unwrap_or_else(|err| exit_with_io_error(&config.input_path, err));
 
     // assembleに失敗したときに既存のoutput fileを壊さないように,
     // 全てassembleし終えてからoutput fileを開く
@@ -21,9 +26,16 @@ pub fn main() {
         .truncate(true)
         .create(true)
         .open(&config.output_path)
-        .unwrap();
+        .unwrap_or_else(|err| exit_with_io_error(&config.output_path, err));
 
-    output_file.write_all(&object).unwrap();
+    output_file
+        .write_all(&object)
+        .unwrap_or_else(|err| exit_with_io_error(&config.output_path, err));
+}
+
+fn exit_with_io_error(path: &Path, err: io::Error) -> ! {
+    eprintln!("error: {}: {}", path.display(), err);
+    exit(1);
 }
 
 struct Config {
-- 
2.43.0


From 1f90f3dc581ee444be5879b2230dad7b7f61e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 19/23] fix: diagnose an -o option without value instead of
 panicking

---
 at-asm/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 4397a28..88d6f5d 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -52,6 +52,10 @@ impl Config {
         let output_file_option = match args.iter().position(|arg| arg == "-o") {
             Some(opt_idx) => {
                 args.remove(opt_idx);
+                if opt_idx >= args.len() {
+                    eprintln!("error: output file is not specified");
+                    exit(1);
+                }
                 // "-o" flagの次のarg
                 let path_str = args.remove(opt_idx);
                 Some(PathBuf::from(path_str))
-- 
2.43.0


From 3b735055455c49179072e4251bc12d13331cca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 20/23] fix: accept file names that are not UTF-8

---
 at-asm/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 88d6f5d..d3b202e 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -45,7 +45,7 @@ struct Config {
 
 impl Config {
     fn init() -> Self {
-        let mut args = std::env::args().collect::<Vec<_>>();
+        let mut args = std::env::args_os().collect::<Vec<_>>();
 
         // "-o" flagで指定されたoutput file
         // もしあればそれらをargsから取り除く
-- 
2.43.0


From 6170b17463b3fcff28a5a8eea2c84ab4d9320eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 21/23] fix: diagnose a symbol that is defined twice

---
 at-asm/src/assembler.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/at-asm/src/assembler.rs b/at-asm/src/assembler.rs
index 843fff9..4fd0a91 100644
--- a/at-asm/src/assembler.rs
+++ b/at-asm/src/assembler.rs
@@ -35,6 +35,16 @@ impl Assembler {
         self.cur_sect = cur_sect;
     }
 
+    fn check_not_defined(&self, name: &str) {
+        if self.obj.symbols().any(|s| s.name() == name) {
+            eprintln!(
+                "error at line {}: symbol {} is already defined",
+                self.cur_line, name
+            );
+            exit(1);
+        }
+    }
+
     pub fn read_from<R: Read>(&mut self, read: &mut R) -> &mut Self {
         let mut reader = Reader::new(read);
 
@@ -66,6 +76,7 @@ impl Assembler {
                     self.ext_symbols.push(symbol_name);
                 }
                 Line::Symbol(name) => {
+                    self.check_not_defined(&name);
                     let mut cur_sect_mut = self.cur_sect_mut();
                     let symbol = Symbol::Ref {
                         name,
@@ -75,6 +86,9 @@ impl Assembler {
                     cur_sect_mut.push_symbol(symbol);
                 }
                 Line::Data(data) => {
+                    if let Some(label) = &data.label {
+                        self.check_not_defined(label);
+                    }
                     let mut cur_sect_mut = self.cur_sect_mut();
                     if let Some(label) = data.label {
                         let symbol = Symbol::Ref {
-- 
2.43.0


From 193bf27810d4175a54dd1c14fccf92be5f69e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:28 +0000
Subject: [PATCH 22/23] fix: accept blanks before the comma between data items

---
 at-asm/src/parsers/data.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/parsers/data.rs b/at-asm/src/parsers/data.rs
index 61f8b57..ddc71fc 100644
--- a/at-asm/src/parsers/data.rs
+++ b/at-asm/src/parsers/data.rs
@@ -161,10 +161,11 @@ impl<'a> Iterator for DataDefIter<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         fn split_delim_once(s: &str) -> (&str, &str) {
-            match s.split_once(|c: char| c.is_whitespace() || c == ',') {
-                Some((s1, s2)) => (s1, s2.trim_start()),
-                None => (s, ""),
-            }
+            let idx = s.find(|c: char| c.is_whitespace() || c == ',');
+            let (s1, s2) = s.split_at(idx.unwrap_or(s.len()));
+            // コンマの前後の空白は無視
+            let s2 = s2.trim_start();
+            (s1, s2.strip_prefix(',').unwrap_or(s2).trim_start())
         }
 
         if self.s.is_empty() {
-- 
2.43.0


From f681cff062018e8e0419acb10a44115ceb2afab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:09 +0000
Subject: [PATCH 23/23] fix: refuse to overwrite the source with its own object
 file

---
 at-asm/src/main.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index d3b202e..b349301 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -14,6 +14,14 @@ pub fn main() {
         .open(&config.input_path)
         .unwrap_or_else(|err| exit_with_io_error(&config.input_path, err));
 
+    if is_same_file(&config.input_path, &config.output_path) {
+        eprintln!(
+            "error: {}: output file is the same as input file",
+            config.output_path.display()
+        );
+        exit(1);
+    }
+
     // assembleに失敗したときに既存のoutput fileを壊さないように,
     // 全てassembleし終えてからoutput fileを開く
     let mut object = Vec::new();
@@ -38,6 +46,13 @@ fn exit_with_io_error(path: &Path, err: io::Error) -> ! {
     exit(1);
 }
 
+fn is_same_file(a: &Path, b: &Path) -> bool {
+    match (a.canonicalize(), b.canonicalize()) {
+        (Ok(a), Ok(b)) => a == b,
+        _ => false,
+    }
+}
+
 struct Config {
     output_path: PathBuf,
     input_path: PathBuf,
-- 
2.43.0

