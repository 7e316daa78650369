From 6e17a7186ee1b50c1dd3dd9bf759ee824d1fad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:25 +0000
Subject: [PATCH 01/15] fix: use an 8-bit displacement only for displacements
 that fit a signed byte

---
 at-x64/src/encoder/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/at-x64/src/encoder/mod.rs b/at-x64/src/encoder/mod.rs
index febf990..192cbaa 100644
--- a/at-x64/src/encoder/mod.rs
+++ b/at-x64/src/encoder/mod.rs
@@ -310,13 +310,13 @@ impl RegMemLike for Mem64 {
             // treat [RBP] and [R13] as [RBP + 0] and [R13 + 0] resprectively
             RegOffset(RBP | R13, 0) => 0b01,
             RegOffset(_, 0) => 0b00,
-            RegOffset(_, 1..=256) => 0b01,
+            RegOffset(_, 1..=127) => 0b01,
             RegOffset(_, _) => 0b10,
             RipOffset(_) => 0b00,
             Sib { base: None, .. } => 0b00,
             Sib {
                 base: Some(RBP | R13),
-                disp: 0..=256,
+                disp: 0..=127,
                 ..
             } => 0b01,
             Sib {
@@ -324,7 +324,7 @@ impl RegMemLike for Mem64 {
                 ..
             } => 0b10,
             Sib { disp: 0, .. } => 0b00,
-            Sib { disp: 1..=256, .. } => 0b01,
+            Sib { disp: 1..=127, .. } => 0b01,
             Sib { .. } => 0b10,
         }
     }
@@ -370,7 +370,7 @@ impl RegMemLike for Mem64 {
         match self {
             RegOffset(RBP | R13, 0) => BytesAtMost::from(0 as u8),
             RegOffset(_, 0) => BytesAtMost::with_len(0),
-            RegOffset(_, disp @ 1..=256) => BytesAtMost::from(*disp as u8),
+            RegOffset(_, disp @ 1..=127) => BytesAtMost::from(*disp as u8),
             RegOffset(_, disp) => BytesAtMost::from(*disp),
             RipOffset(disp) => BytesAtMost::from(*disp),
             Sib {
@@ -383,7 +383,7 @@ impl RegMemLike for Mem64 {
             } => BytesAtMost::from(0u8),
             Sib { disp: 0, .. } => BytesAtMost::with_len(0),
             Sib {
-                disp: disp @ 1..=256,
+                disp: disp @ 1..=127,
                 ..
             } => BytesAtMost::from(*disp as u8),
             Sib { disp, .. } => BytesAtMost::from(*disp),
-- 
2.43.0


From 336eee7b7ecbacbc86dba96bdbb50007b7295e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 02/15] fix: keep a section which has no data but defines
 symbols

---
 at-obj/src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/object.rs b/at-obj/src/object.rs
index c0ced39..cb8e329 100644
--- a/at-obj/src/object.rs
+++ b/at-obj/src/object.rs
@@ -76,7 +76,7 @@ impl<'a> SectionRef<'a> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.vm_size() == 0
+        self.vm_size() == 0 && self.symbols().is_empty()
     }
 
     pub(crate) fn file_data(&self) -> &[u8] {
-- 
2.43.0


From 34534f6f6048464577553ec628bc33e8b8c92c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:18 +0000
Subject: [PATCH 03/15] fix: absolute symbols belong to no section

---
 at-obj/src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 3455a0f..444f309 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -328,7 +328,7 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
                         n_type: NType::Abs,
                         n_ext: *ext,
                     },
-                    n_sect: idx as u8,
+                    n_sect: 0,
                     n_desc: 0,
                     n_value: *val,
                 },
-- 
2.43.0


From 601ce886159727ca58a946be126bd537ad2bc3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:19 +0000
Subject: [PATCH 04/15] fix: do not count padding in the file size of the
 segment

---
 at-obj/src/macho.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 444f309..f89c7fb 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -106,8 +106,7 @@ fn gen_segment_command64(object: &Object) -> SegmentCommand64 {
             .sections()
             .iter()
             .map(|sect| sect.file_size())
-            .sum::<u32>()
-            .aligned(8) as u64,
+            .sum::<u32>() as u64,
         // object fileのprotectionは常に7
         // つまりrwxの全てのbitが立っている状態
         maxprot: 7,
-- 
2.43.0


From abc75c7634faf934becfa3650f37755e9280fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:31 +0000
Subject: [PATCH 05/15] fix: read the whole n_type byte of a debugger symbol

---
 at-mac/src/nlist.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/at-mac/src/nlist.rs b/at-mac/src/nlist.rs
index 76b1135..d1d2970 100644
--- a/at-mac/src/nlist.rs
+++ b/at-mac/src/nlist.rs
@@ -91,7 +91,8 @@ impl NTypeField {
                 n_ext,
             }
         } else {
-            NTypeField::Stab(DebugSymbol::from_u8(n_stab))
+            // a debugger symbol uses the whole byte as its type
+            NTypeField::Stab(DebugSymbol::from_u8(n))
         }
     }
 
-- 
2.43.0


From 8fa46350f425518dd446cda575e5d3a4f3643b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:21 +0000
Subject: [PATCH 06/15] fix: do not overflow while adding or subtracting
 literals

---
 at-asm/src/parsers/expr.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index 053dd65..f411f3e 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,9 +54,13 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
-        let res = lhs as i64 + sign_to_u64(sign) * rhs as i64;
+        let res = if sign {
+            lhs.wrapping_add(rhs)
+        } else {
+            lhs.wrapping_sub(rhs)
+        };
 
-        Ok(Some(Expr(res as u64)))
+        Ok(Some(Expr(res)))
     }
 
     fn parse_str(s: &str) -> Result<Self, ParseError> {
@@ -67,10 +71,6 @@ impl ParseStr for Expr {
     }
 }
 
-fn sign_to_u64(sign: bool) -> i64 {
-    sign as i64 * 2 - 1
-}
-
 enum Token {
     Num(u64),
     Plus,
-- 
2.43.0


From cd6e5a46b2aa8a0217855c5fa07c3b88dc14e35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:22 +0000
Subject: [PATCH 07/15] fix: refuse a line which continues after a complete
 instruction

---
 at-asm/src/parsers/expr.rs             |  4 ++++
 at-asm/src/parsers/instruction/mod.rs  | 20 ++++++++++++++------
 at-asm/src/parsers/instruction/mov.rs  |  6 ++++++
 at-asm/src/parsers/instruction/push.rs |  4 ++++
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index f411f3e..4265245 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,6 +54,10 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
+        if tokens.next().is_some() {
+            return Err(ParseError::eol_expected());
+        }
+
         let res = if sign {
             lhs.wrapping_add(rhs)
         } else {
diff --git a/at-asm/src/parsers/instruction/mod.rs b/at-asm/src/parsers/instruction/mod.rs
index 9eb96f8..e9e9e17 100644
--- a/at-asm/src/parsers/instruction/mod.rs
+++ b/at-asm/src/parsers/instruction/mod.rs
@@ -40,13 +40,21 @@ impl Instruction {
 
 impl ParseStr for Instruction {
     fn try_parse_str(s: &str) -> Result<Option<Instruction>, ParseError> {
-        match s.split_whitespace().next() {
-            Some("mov") => Ok(Some(mov::parse_str(s)?)),
-            Some("push") => Ok(Some(push::parse_str(s)?)),
-            Some("ret") => Ok(Some(Instruction::new(Ret::new()))),
-            Some("syscall") => Ok(Some(Instruction::new(Syscall::new()))),
-            _ => Ok(None),
+        let mut tokens = s.split_whitespace();
+
+        let instruction = match tokens.next() {
+            Some("mov") => return Ok(Some(mov::parse_str(s)?)),
+            Some("push") => return Ok(Some(push::parse_str(s)?)),
+            Some("ret") => Instruction::new(Ret::new()),
+            Some("syscall") => Instruction::new(Syscall::new()),
+            _ => return Ok(None),
+        };
+
+        if tokens.next().is_some() {
+            return Err(ParseError::eol_expected());
         }
+
+        Ok(Some(instruction))
     }
 
     fn parse_str(s: &str) -> Result<Self, ParseError> {
diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index c65863c..f40d023 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -35,6 +35,9 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
 
         // otherwise, second operand is symbol
+        if operand2_str.split_whitespace().count() != 1 {
+            return Err(ParseError::new("invalid second operand"));
+        }
         let symbol = operand2_str.to_string();
         let mov = Mov::new(dst_reg, 0_u64);
         let reloc = LocalReloc {
@@ -66,6 +69,9 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
 
         // otherwise, second operand is symbol
+        if operand2_str.split_whitespace().count() != 1 {
+            return Err(ParseError::new("invalid second operand"));
+        }
         let symbol = operand2_str.to_string();
         let mov = Mov::new(dst_reg, 0_u32);
         let reloc = LocalReloc {
diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 26cd032..c40f5ce 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -21,6 +21,10 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     };
 
     // if operand is Reg64
+    if tokens.next().is_some() {
+        return Err(ParseError::eol_expected());
+    }
+
     if let Some(reg) = Reg64::try_parse_str(operand_str)? {
         let push = Push::new(reg);
         return Ok(Instruction::new(push));
-- 
2.43.0


From 7021d05453c9586e56c425f24f4f1feff0859927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:23 +0000
Subject: [PATCH 08/15] fix: accept any white space after the mov opcode

---
 at-asm/src/parsers/instruction/mov.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index f40d023..aed497f 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -10,7 +10,7 @@ use at_x64::{
 pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     let (opcode, remain) = s
         .trim()
-        .split_once(" ")
+        .split_once(char::is_whitespace)
         .ok_or_else(|| ParseError::new("invalid mov instruction format"))?;
     if opcode != "mov" {
         return Err(ParseError::new("not mov opcode"));
-- 
2.43.0


From 3fe56732c44338fdf4b3b1c806c9ca71e2142163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:46 +0000
Subject: [PATCH 09/15] fix: strip only the one colon which ends a label

---
 at-asm/src/parsers/line.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index 9fb9933..bb81dac 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -41,11 +41,10 @@ impl ParseStr for Line {
         }
 
         // シンボル
-        if token.ends_with(":") {
+        if let Some(symbol) = token.strip_suffix(":") {
             if tokens.next().is_some() {
                 return Err(ParseError::new("error: expected end of line."));
             }
-            let symbol = token.trim_end_matches(":");
             return Ok(Line::Symbol(symbol.to_string()));
         }
 
-- 
2.43.0


From e39d69c27b26922f1ac37751fd1aa429ed285a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:47 +0000
Subject: [PATCH 10/15] fix: accept the 0x prefix of a number only once

---
 at-asm/src/parsers/num.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/num.rs b/at-asm/src/parsers/num.rs
index 4a167ba..3adbb81 100644
--- a/at-asm/src/parsers/num.rs
+++ b/at-asm/src/parsers/num.rs
@@ -7,8 +7,7 @@ macro_rules! impl_parse_str {
             /// Never error.
             /// Because another number format possibly fit.
             fn try_parse_str(s: &str) -> Result<Option<Self>, ParseError> {
-                if s.starts_with("0x") {
-                    let s = s.trim_start_matches("0x");
+                if let Some(s) = s.strip_prefix("0x") {
                     Ok(Self::from_str_radix(s, 16).ok())
                 } else {
                     Ok(Self::from_str_radix(s, 10).ok())
-- 
2.43.0


From 0abdfd4dd98f3b380a4307da54c2906900da23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:48 +0000
Subject: [PATCH 11/15] fix: do not take a semicolon in a string for a comment

---
 at-asm/src/parsers/line.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index bb81dac..c803d3d 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -15,8 +15,16 @@ pub enum Line {
 impl ParseStr for Line {
     fn parse_str(s: &str) -> Result<Self, ParseError> {
         // コメントを無視
-        let s = match s.split_once(";") {
-            Some((s, _)) => s,
+        // ただし、文字列中の ";" はコメントではない
+        let mut in_string = false;
+        let comment = s.find(|c: char| {
+            if c == '"' {
+                in_string = !in_string;
+            }
+            c == ';' && !in_string
+        });
+        let s = match comment {
+            Some(idx) => &s[..idx],
             None => s,
         };
 
-- 
2.43.0


From 1f907f8a506a6c1fac87c14320bd9411b265306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:49 +0000
Subject: [PATCH 12/15] fix: report the line which writes data to .bss section

---
 at-asm/src/assembler.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/at-asm/src/assembler.rs b/at-asm/src/assembler.rs
index e78accf..b597ca9 100644
--- a/at-asm/src/assembler.rs
+++ b/at-asm/src/assembler.rs
@@ -50,6 +50,13 @@ impl Assembler {
             };
 
             match parsed_line {
+                Line::Data(_) | Line::Instruction(_) if self.cur_sect == Section::Bss => {
+                    eprintln!(
+                        "error at line {}: can't write data to .bss section",
+                        self.cur_line
+                    );
+                    exit(1);
+                }
                 Line::Empty => {}
                 Line::Section(sect) => {
                     self.set_cur_sect(sect);
-- 
2.43.0


From 3e7941885d88acfa78b3166f1233c22605b0370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:50 +0000
Subject: [PATCH 13/15] fix: open the output file only after assembling
 succeeded

---
 at-asm/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 6c022fb..e569398 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -1,5 +1,5 @@
 use at_asm::Assembler;
-use std::{fs::OpenOptions, path::PathBuf, process::exit};
+use std::{fs::OpenOptions, io::Write as _, path::PathBuf, process::exit};
 
 pub fn main() {
     let config = Config::init();
@@ -9,16 +9,19 @@ pub fn main() {
         .open(&config.input_path)
         .unwrap();
 
+    // 全て成功するまで output file には触らない
+    let mut object = Vec::new();
+    Assembler::new()
+        .read_from(&mut input_file)
+        .write_into(&mut object);
+
     let mut output_file = OpenOptions::new()
         .write(true)
         .truncate(true)
         .create(true)
         .open(&config.output_path)
         .unwrap();
-
-    Assembler::new()
-        .read_from(&mut input_file)
-        .write_into(&mut output_file);
+    output_file.write_all(&object).unwrap();
 }
 
 struct Config {
-- 
2.43.0


From 9c1fac977a53d03afd0eeb2988351b869e420e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:28 +0000
Subject: [PATCH 14/15] fix: do not sign-extend large push immediates

---
 at-asm/src/parsers/instruction/push.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index c40f5ce..7359c13 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -30,16 +30,20 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         return Ok(Instruction::new(push));
     }
 
-    // if operand is u8
-    if let Some(imm) = u8::try_parse_str(operand_str)? {
-        let push = Push::new(imm);
-        return Ok(Instruction::new(push));
-    }
-
-    // if operand is u32
+    // if operand is a number.
+    // The cpu sign-extends the immediate to 64bit, so only a number which is not
+    // changed by that is acceptable.
     if let Some(imm) = u32::try_parse_str(operand_str)? {
-        let push = Push::new(imm);
-        return Ok(Instruction::new(push));
+        if imm <= i8::MAX as u32 {
+            return Ok(Instruction::new(Push::new(imm as u8)));
+        }
+        if imm <= i32::MAX as u32 {
+            return Ok(Instruction::new(Push::new(imm)));
+        }
+        return Err(ParseError::new(format!(
+            "error: too large push operand : {}",
+            operand_str
+        )));
     }
 
     // otherwise error
-- 
2.43.0


From d2c1b947eb80650c9b282ae41d8fe386f4791be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:24 +0000
Subject: [PATCH 15/15] fix: white space before the comma between data items is
 accepted

---
 at-asm/src/parsers/data.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/data.rs b/at-asm/src/parsers/data.rs
index 61f8b57..7ffe687 100644
--- a/at-asm/src/parsers/data.rs
+++ b/at-asm/src/parsers/data.rs
@@ -161,8 +161,13 @@ impl<'a> Iterator for DataDefIter<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         fn split_delim_once(s: &str) -> (&str, &str) {
-            match s.split_once(|c: char| c.is_whitespace() || c == ',') {
-                Some((s1, s2)) => (s1, s2.trim_start()),
+            match s.find(|c: char| c.is_whitespace() || c == ',') {
+                Some(idx) => {
+                    // the comma may be surrounded by whitespace
+                    let (s1, s2) = s.split_at(idx);
+                    let s2 = s2.trim_start();
+                    (s1, s2.strip_prefix(',').unwrap_or(s2).trim_start())
+                }
                 None => (s, ""),
             }
         }
-- 
2.43.0

