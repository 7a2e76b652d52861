From 5694a0bc9bdef0bdca9e83d422e5b9976f7a1c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 01/26] fix: encode displacements 128..=256 as disp32

An 8-bit displacement is sign-extended by the processor, so [reg + 128]
.. [reg + 255] were encoded as negative displacements and [reg + 256]
as no displacement at all.
---
 at-x64/src/encoder/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/at-x64/src/encoder/mod.rs b/at-x64/src/encoder/mod.rs
index febf990..192cbaa 100644
--- a/at-x64/src/encoder/mod.rs
+++ b/at-x64/src/encoder/mod.rs
@@ -310,13 +310,13 @@ impl RegMemLike for Mem64 {
             // treat [RBP] and [R13] as [RBP + 0] and [R13 + 0] resprectively
             RegOffset(RBP | R13, 0) => 0b01,
             RegOffset(_, 0) => 0b00,
-            RegOffset(_, 1..=256) => 0b01,
+            RegOffset(_, 1..=127) => 0b01,
             RegOffset(_, _) => 0b10,
             RipOffset(_) => 0b00,
             Sib { base: None, .. } => 0b00,
             Sib {
                 base: Some(RBP | R13),
-                disp: 0..=256,
+                disp: 0..=127,
                 ..
             } => 0b01,
             Sib {
@@ -324,7 +324,7 @@ impl RegMemLike for Mem64 {
                 ..
             } => 0b10,
             Sib { disp: 0, .. } => 0b00,
-            Sib { disp: 1..=256, .. } => 0b01,
+            Sib { disp: 1..=127, .. } => 0b01,
             Sib { .. } => 0b10,
         }
     }
@@ -370,7 +370,7 @@ impl RegMemLike for Mem64 {
         match self {
             RegOffset(RBP | R13, 0) => BytesAtMost::from(0 as u8),
             RegOffset(_, 0) => BytesAtMost::with_len(0),
-            RegOffset(_, disp @ 1..=256) => BytesAtMost::from(*disp as u8),
+            RegOffset(_, disp @ 1..=127) => BytesAtMost::from(*disp as u8),
             RegOffset(_, disp) => BytesAtMost::from(*disp),
             RipOffset(disp) => BytesAtMost::from(*disp),
             Sib {
@@ -383,7 +383,7 @@ impl RegMemLike for Mem64 {
             } => BytesAtMost::from(0u8),
             Sib { disp: 0, .. } => BytesAtMost::with_len(0),
             Sib {
-                disp: disp @ 1..=256,
+                disp: disp @ 1..=127,
                 ..
             } => BytesAtMost::from(*disp as u8),
             Sib { disp, .. } => BytesAtMost::from(*disp),
-- 
2.43.0


From d42d18486d2d551e866f7651f965c18f76cbebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 02/26] fix: push 128..=255 as a 32bit immediate

The 8-bit immediate of push is sign-extended, so `push 200` pushed -56.
---
 at-asm/src/parsers/instruction/push.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 26cd032..0967707 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -27,7 +27,8 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     }
 
     // if operand is u8
-    if let Some(imm) = u8::try_parse_str(operand_str)? {
+    // imm8 is sign-extended, so it can hold only up to 127
+    if let Some(imm) = u8::try_parse_str(operand_str)?.filter(|imm| *imm <= 127) {
         let push = Push::new(imm);
         return Ok(Instruction::new(push));
     }
-- 
2.43.0


From ae87fab52d800e504c0f06ac20b1dd98b62941cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 03/26] fix: do not panic on expressions whose value exceeds
 i64

`mov rax, 0x7fffffffffffffff + 1` is a 64-bit value, but the sum was
computed in i64 and overflowed.
---
 at-asm/src/parsers/expr.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index 053dd65..f411f3e 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,9 +54,13 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
-        let res = lhs as i64 + sign_to_u64(sign) * rhs as i64;
+        let res = if sign {
+            lhs.wrapping_add(rhs)
+        } else {
+            lhs.wrapping_sub(rhs)
+        };
 
-        Ok(Some(Expr(res as u64)))
+        Ok(Some(Expr(res)))
     }
 
     fn parse_str(s: &str) -> Result<Self, ParseError> {
@@ -67,10 +71,6 @@ impl ParseStr for Expr {
     }
 }
 
-fn sign_to_u64(sign: bool) -> i64 {
-    sign as i64 * 2 - 1
-}
-
 enum Token {
     Num(u64),
     Plus,
-- 
2.43.0


From 3ac308027668fe244d37b72879d2dcff2d7777d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 04/26] fix: refuse tokens left over after an expression

`mov rax, 1 + 2 + 3` was silently assembled as `mov rax, 3`.
---
 at-asm/src/parsers/expr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index f411f3e..4265245 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,6 +54,10 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
+        if tokens.next().is_some() {
+            return Err(ParseError::eol_expected());
+        }
+
         let res = if sign {
             lhs.wrapping_add(rhs)
         } else {
-- 
2.43.0


From a98385e28830e4a089068ec3b8467f8e4469db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 05/26] fix: refuse surplus operands of push, ret and syscall

`ret 8`, `syscall 1` and `push 1 + 2` were silently assembled as `ret`,
`syscall` and `push 1`.
---
 at-asm/src/parsers/instruction/mod.rs  | 7 ++++++-
 at-asm/src/parsers/instruction/push.rs | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/mod.rs b/at-asm/src/parsers/instruction/mod.rs
index 9eb96f8..a8d2f55 100644
--- a/at-asm/src/parsers/instruction/mod.rs
+++ b/at-asm/src/parsers/instruction/mod.rs
@@ -40,9 +40,14 @@ impl Instruction {
 
 impl ParseStr for Instruction {
     fn try_parse_str(s: &str) -> Result<Option<Instruction>, ParseError> {
-        match s.split_whitespace().next() {
+        let mut tokens = s.split_whitespace();
+
+        match tokens.next() {
             Some("mov") => Ok(Some(mov::parse_str(s)?)),
             Some("push") => Ok(Some(push::parse_str(s)?)),
+            Some("ret") | Some("syscall") if tokens.next().is_some() => {
+                Err(ParseError::eol_expected())
+            }
             Some("ret") => Ok(Some(Instruction::new(Ret::new()))),
             Some("syscall") => Ok(Some(Instruction::new(Syscall::new()))),
             _ => Ok(None),
diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 0967707..f2ed1f8 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -20,6 +20,10 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
     };
 
+    if tokens.next().is_some() {
+        return Err(ParseError::eol_expected());
+    }
+
     // if operand is Reg64
     if let Some(reg) = Reg64::try_parse_str(operand_str)? {
         let push = Push::new(reg);
-- 
2.43.0


From ff5243c509a2008bc3d785db03b355638544c2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 06/26] fix: do not treat ';' inside a string as a comment

`db "a;b"` was refused with 'unclosed " found'.
---
 at-asm/src/parsers/line.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index 9fb9933..f89e123 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -14,9 +14,13 @@ pub enum Line {
 
 impl ParseStr for Line {
     fn parse_str(s: &str) -> Result<Self, ParseError> {
-        // コメントを無視
-        let s = match s.split_once(";") {
-            Some((s, _)) => s,
+        // コメントを無視 (文字列中の ";" はコメントではない)
+        let mut in_str = false;
+        let s = match s.find(|c: char| {
+            in_str ^= c == '"';
+            c == ';' && !in_str
+        }) {
+            Some(idx) => &s[..idx],
             None => s,
         };
 
-- 
2.43.0


From afb8bb9544c903d26dcbe55611adbb7fc70cb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 07/26] fix: accept blanks before a comma after a numeric data
 item

`db 1 , 2` was refused although `db "a" , 2` and `db 1, 2` were not.
---
 at-asm/src/parsers/data.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/data.rs b/at-asm/src/parsers/data.rs
index 61f8b57..860fe73 100644
--- a/at-asm/src/parsers/data.rs
+++ b/at-asm/src/parsers/data.rs
@@ -162,7 +162,10 @@ impl<'a> Iterator for DataDefIter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         fn split_delim_once(s: &str) -> (&str, &str) {
             match s.split_once(|c: char| c.is_whitespace() || c == ',') {
-                Some((s1, s2)) => (s1, s2.trim_start()),
+                Some((s1, s2)) => (
+                    s1,
+                    s2.trim_start_matches(|c: char| c.is_whitespace() || c == ','),
+                ),
                 None => (s, ""),
             }
         }
-- 
2.43.0


From a0871420127be3fb717020b39de79282932fb7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 08/26] fix: accept a tab after mov

`mov<TAB>rax, 1` was refused; push accepts any blank.
---
 at-asm/src/parsers/instruction/mov.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index c65863c..b26c5ba 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -10,7 +10,7 @@ use at_x64::{
 pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     let (opcode, remain) = s
         .trim()
-        .split_once(" ")
+        .split_once(char::is_whitespace)
         .ok_or_else(|| ParseError::new("invalid mov instruction format"))?;
     if opcode != "mov" {
         return Err(ParseError::new("not mov opcode"));
-- 
2.43.0


From 3cf13f2f519d5e199a45effd36ee97e15bc4b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 09/26] fix: keep the symbols of sections that have no contents

A label in a section without bytes was dropped from the symbol table,
and an operand naming it made the object writer panic.
---
 at-obj/src/object.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/at-obj/src/object.rs b/at-obj/src/object.rs
index c0ced39..c456657 100644
--- a/at-obj/src/object.rs
+++ b/at-obj/src/object.rs
@@ -43,7 +43,8 @@ pub struct Sections {
 }
 
 impl Sections {
-    /// iterate of all sections except empty section.
+    /// iterate of all sections except empty section
+    /// (one that has neither contents nor symbols).
     pub(crate) fn iter<'a>(&'a self) -> impl Iterator<Item = SectionRef<'a>> {
         let arr = [
             SectionRef::Text(&self.text),
@@ -76,7 +77,7 @@ impl<'a> SectionRef<'a> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.vm_size() == 0
+        self.vm_size() == 0 && self.symbols().is_empty()
     }
 
     pub(crate) fn file_data(&self) -> &[u8] {
-- 
2.43.0


From 67582f167b0880083614a92081b3849c44052372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 10/26] fix: absolute symbols belong to no section

N_ABS requires n_sect == NO_SECT (see NType::Abs).
---
 at-obj/src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 3455a0f..0ea59c2 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -328,7 +328,7 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
                         n_type: NType::Abs,
                         n_ext: *ext,
                     },
-                    n_sect: idx as u8,
+                    n_sect: NList64::NO_SECT,
                     n_desc: 0,
                     n_value: *val,
                 },
-- 
2.43.0


From d13bb84ff4c4d1a5487e5bf4a5131d7279f873d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 11/26] fix: do not count the padding in the segment's filesize

With sections whose size is not a multiple of 8 the segment was larger
in the file than in memory, which readers (e.g. LLVM) refuse as
malformed.
---
 at-obj/src/macho.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 0ea59c2..1e0d2d3 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -105,9 +105,8 @@ fn gen_segment_command64(object: &Object) -> SegmentCommand64 {
         filesize: object
             .sections()
             .iter()
-            .map(|sect| sect.file_size())
-            .sum::<u32>()
-            .aligned(8) as u64,
+            .map(|sect| sect.file_size() as u64)
+            .sum(),
         // object fileのprotectionは常に7
         // つまりrwxの全てのbitが立っている状態
         maxprot: 7,
-- 
2.43.0


From f4da481706f08de8510b2db81cbc9a2947e963b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 12/26] fix: do not read other debugging entries as N_GSYM

The whole n_type byte tells debugging entries apart; with only the upper
3 bits N_FUN (0x24) etc. were read as N_GSYM.
---
 at-mac/src/nlist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-mac/src/nlist.rs b/at-mac/src/nlist.rs
index 76b1135..f928991 100644
--- a/at-mac/src/nlist.rs
+++ b/at-mac/src/nlist.rs
@@ -91,7 +91,7 @@ impl NTypeField {
                 n_ext,
             }
         } else {
-            NTypeField::Stab(DebugSymbol::from_u8(n_stab))
+            NTypeField::Stab(DebugSymbol::from_u8(n))
         }
     }
 
-- 
2.43.0


From 53cf5c485b02b3020377733c92f64e8246ed0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 13/26] fix: do not iterate over an empty string after the last
 one

The terminator of the last string was taken for a separator.
---
 at-mac/src/string_table.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/at-mac/src/string_table.rs b/at-mac/src/string_table.rs
index 30358ff..bf4cea8 100644
--- a/at-mac/src/string_table.rs
+++ b/at-mac/src/string_table.rs
@@ -29,7 +29,8 @@ impl StringTable {
     }
 
     pub fn iter(&self) -> impl Iterator<Item = &str> {
-        self.as_ref()
+        // without the terminator of the last string
+        self.data[..self.data.len() - 1]
             .split(|b| *b == 0)
             .skip(1)
             .map(|bytes| std::str::from_utf8(bytes).unwrap())
-- 
2.43.0


From a0b6d524dde6fe15cae313ffcc49b5d8180e2444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 14/26] fix: leave the output file alone when assembling fails

The output was truncated before the source was read, and a source with
an undefined symbol left a partial object behind.
---
 at-asm/src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 6c022fb..55fc26c 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -1,5 +1,5 @@
 use at_asm::Assembler;
-use std::{fs::OpenOptions, path::PathBuf, process::exit};
+use std::{fs::OpenOptions, io::Write as _, path::PathBuf, process::exit};
 
 pub fn main() {
     let config = Config::init();
@@ -9,6 +9,13 @@ pub fn main() {
         .open(&config.input_path)
         .unwrap();
 
+    let mut object = Vec::new();
+
+    Assembler::new()
+        .read_from(&mut input_file)
+        .write_into(&mut object);
+
+    // do not touch the output file unless assembling succeeded
     let mut output_file = OpenOptions::new()
         .write(true)
         .truncate(true)
@@ -16,9 +23,7 @@ pub fn main() {
         .open(&config.output_path)
         .unwrap();
 
-    Assembler::new()
-        .read_from(&mut input_file)
-        .write_into(&mut output_file);
+    output_file.write_all(&object).unwrap();
 }
 
 struct Config {
-- 
2.43.0


From a90cf9d40f7bdf93b76fd52930ba68d225e0f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:58 +0000
Subject: [PATCH 15/26] fix: refuse a label that is already defined

Both definitions went into the symbol table under one name, and operands
were silently bound to one of them.
---
 at-asm/src/assembler.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/at-asm/src/assembler.rs b/at-asm/src/assembler.rs
index e78accf..542e3bd 100644
--- a/at-asm/src/assembler.rs
+++ b/at-asm/src/assembler.rs
@@ -35,6 +35,13 @@ impl Assembler {
         self.cur_sect = cur_sect;
     }
 
+    fn check_undefined_yet(&self, name: &str) {
+        if self.obj.symbols().any(|symbol| symbol.name() == name) {
+            eprintln!("error at line {}: {} is already defined", self.cur_line, name);
+            exit(1);
+        }
+    }
+
     pub fn read_from<R: Read>(&mut self, read: &mut R) -> &mut Self {
         let mut reader = Reader::new(read);
 
@@ -58,6 +65,7 @@ impl Assembler {
                     self.ext_symbols.push(symbol_name);
                 }
                 Line::Symbol(name) => {
+                    self.check_undefined_yet(&name);
                     let mut cur_sect_mut = self.cur_sect_mut();
                     let symbol = Symbol::Ref {
                         name,
@@ -67,6 +75,9 @@ impl Assembler {
                     cur_sect_mut.push_symbol(symbol);
                 }
                 Line::Data(data) => {
+                    if let Some(label) = &data.label {
+                        self.check_undefined_yet(label);
+                    }
                     let mut cur_sect_mut = self.cur_sect_mut();
                     if let Some(label) = data.label {
                         let symbol = Symbol::Ref {
-- 
2.43.0


From 8d9139bc0757f57c2380c3cc1f90fdd86d4feff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:10 +0000
Subject: [PATCH 16/26] fix: compare flag sets regardless of push order

---
 at-mac/src/header.rs                 | 9 ++++++++-
 at-mac/src/load_command/segment64.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/at-mac/src/header.rs b/at-mac/src/header.rs
index f29a2e0..e0965a6 100644
--- a/at-mac/src/header.rs
+++ b/at-mac/src/header.rs
@@ -207,7 +207,7 @@ impl Flag {
     }
 }
 
-#[derive(Clone, PartialEq, Eq)]
+#[derive(Clone, Eq)]
 pub struct Flags {
     flags: Vec<Flag>,
 }
@@ -245,6 +245,13 @@ impl Flags {
     }
 }
 
+/// A set: the order in which the members were pushed does not matter.
+impl PartialEq for Flags {
+    fn eq(&self, other: &Flags) -> bool {
+        self.to_u32() == other.to_u32()
+    }
+}
+
 impl fmt::Debug for Flags {
     fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
         fmt.debug_set().entries(self.flags.iter()).finish()
diff --git a/at-mac/src/load_command/segment64.rs b/at-mac/src/load_command/segment64.rs
index f31991c..0df7c18 100644
--- a/at-mac/src/load_command/segment64.rs
+++ b/at-mac/src/load_command/segment64.rs
@@ -232,7 +232,7 @@ impl SectionAttr {
     }
 }
 
-#[derive(Clone, PartialEq, Eq)]
+#[derive(Clone, Eq)]
 pub struct SectionAttrs {
     attrs: Vec<SectionAttr>,
 }
@@ -268,6 +268,13 @@ impl SectionAttrs {
     }
 }
 
+/// A set: the order in which the members were pushed does not matter.
+impl PartialEq for SectionAttrs {
+    fn eq(&self, other: &SectionAttrs) -> bool {
+        self.to_u32() == other.to_u32()
+    }
+}
+
 impl fmt::Debug for SectionAttrs {
     fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
         fmt.debug_set().entries(self.attrs.iter()).finish()
-- 
2.43.0


From c24dd987ef02cc37fc30beede5bc1944735fe25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:16 +0000
Subject: [PATCH 17/26] fix: report an empty or multi-word symbol operand at
 its line

---
 at-asm/src/parsers/instruction/mov.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index b26c5ba..d6f2676 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -35,7 +35,7 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
 
         // otherwise, second operand is symbol
-        let symbol = operand2_str.to_string();
+        let symbol = parse_symbol(operand2_str)?;
         let mov = Mov::new(dst_reg, 0_u64);
         let reloc = LocalReloc {
             offset: mov.offset_to_imm_bytes(),
@@ -66,7 +66,7 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
 
         // otherwise, second operand is symbol
-        let symbol = operand2_str.to_string();
+        let symbol = parse_symbol(operand2_str)?;
         let mov = Mov::new(dst_reg, 0_u32);
         let reloc = LocalReloc {
             offset: mov.offset_to_imm_bytes(),
@@ -104,6 +104,14 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     Err(ParseError::new("invalid first operand"))
 }
 
+// a symbol is a single word
+fn parse_symbol(s: &str) -> Result<String, ParseError> {
+    if s.is_empty() || s.contains(|c: char| c.is_whitespace() || c == ',') {
+        return Err(ParseError::new("invalid second operand"));
+    }
+    Ok(s.to_string())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 4c864aa67ef12b7cff7d435ffe934917f2f8e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:50 +0000
Subject: [PATCH 18/26] fix: default output path of an input whose name begins
 with two dots

---
 at-asm/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 55fc26c..8153379 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -68,7 +68,10 @@ impl Config {
             None => {
                 // default output file
                 // input fileの拡張子だけ変えたもの
-                input_path.with_extension("o")
+                // (with_extension would turn "..x" into ".")
+                let mut path = input_path.clone();
+                path.set_extension("o");
+                path
             }
         };
 
-- 
2.43.0


From 94f79919fb564cceeb3bd7dde392e8d9c7fd6117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:46 +0000
Subject: [PATCH 19/26] fix: refuse numbers with a plus sign or a doubled 0x
 prefix

---
 at-asm/src/parsers/num.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/at-asm/src/parsers/num.rs b/at-asm/src/parsers/num.rs
index 4a167ba..e733541 100644
--- a/at-asm/src/parsers/num.rs
+++ b/at-asm/src/parsers/num.rs
@@ -7,12 +7,15 @@ macro_rules! impl_parse_str {
             /// Never error.
             /// Because another number format possibly fit.
             fn try_parse_str(s: &str) -> Result<Option<Self>, ParseError> {
-                if s.starts_with("0x") {
-                    let s = s.trim_start_matches("0x");
-                    Ok(Self::from_str_radix(s, 16).ok())
-                } else {
-                    Ok(Self::from_str_radix(s, 10).ok())
+                let (digits, radix) = match s.strip_prefix("0x") {
+                    Some(digits) => (digits, 16),
+                    None => (s, 10),
+                };
+                // from_str_radix would accept a sign
+                if digits.starts_with('+') {
+                    return Ok(None);
                 }
+                Ok(Self::from_str_radix(digits, radix).ok())
             }
 
             fn parse_str(s: &str) -> Result<Self, ParseError> {
-- 
2.43.0


From 0ec3957d76118d5fe2e93cf1743b0c619c15674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:20 +0000
Subject: [PATCH 20/26] fix: a name with a zero byte is refused, not written as
 a shorter one

---
 at-mac/src/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/at-mac/src/io.rs b/at-mac/src/io.rs
index 20fb7ba..dcf7f84 100644
--- a/at-mac/src/io.rs
+++ b/at-mac/src/io.rs
@@ -84,6 +84,8 @@ pub trait WriteExt: Write + WriteBytesExt {
 
     fn write_fixed_size_string(&mut self, s: &str, size: usize) {
         assert!(s.is_ascii());
+        // a zero byte would end the string when it is read
+        assert!(!s.contains('\0'));
         assert!(s.len() <= size);
 
         let mut buf = vec![0u8; size];
-- 
2.43.0


From 9b5c4f40fd753791acd3c33b2c3ebeb19a7205b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:20 +0000
Subject: [PATCH 21/26] fix: a string with a zero byte is not pushed to a
 string table as several strings

---
 at-mac/src/string_table.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/at-mac/src/string_table.rs b/at-mac/src/string_table.rs
index bf4cea8..ac0b61e 100644
--- a/at-mac/src/string_table.rs
+++ b/at-mac/src/string_table.rs
@@ -19,6 +19,9 @@ impl StringTable {
             if !c.is_ascii() {
                 panic!("could not push non-ascii char");
             }
+            if c == '\0' {
+                panic!("could not push null char");
+            }
             self.data.push(c as u8);
         }
         self.data.push(0);
-- 
2.43.0


From 53fc40e63b33a38a25e8659b59e2c049c48f7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:21 +0000
Subject: [PATCH 22/26] fix: a relocation whose symbol number or type does not
 fit is refused, not written as another

---
 at-mac/src/reloc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/at-mac/src/reloc.rs b/at-mac/src/reloc.rs
index 449d5cb..a44db26 100644
--- a/at-mac/src/reloc.rs
+++ b/at-mac/src/reloc.rs
@@ -84,6 +84,10 @@ impl RelocationInfo {
     // (inverse order if little endian, and vice versa).
     #[cfg(target_endian = "little")]
     pub fn write_into(self, write: &mut impl Write) {
+        // 24 bits and 4 bits are all there is for them
+        assert!(self.r_symbolnum <= 0x00FF_FFFF);
+        assert!(self.r_type <= 0x0F);
+
         write.write_i32_native(self.r_address);
 
         let mut infos: u32 = 0;
@@ -101,6 +105,10 @@ impl RelocationInfo {
     // (inverse order if little endian, and vice versa).
     #[cfg(target_endian = "big")]
     pub fn write_into(self, write: &mut impl Write) {
+        // 24 bits and 4 bits are all there is for them
+        assert!(self.r_symbolnum <= 0x00FF_FFFF);
+        assert!(self.r_type <= 0x0F);
+
         write.write_i32_native(self.r_address);
 
         let mut infos: u32 = 0;
-- 
2.43.0


From 912b7a1c80db375d91b1b40cee42560728942167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:23 +0000
Subject: [PATCH 23/26] fix: a command with so many entries that its size
 overflows is refused without overflow checks, too

---
 at-mac/src/load_command/build_version.rs | 6 +++++-
 at-mac/src/load_command/segment64.rs     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/at-mac/src/load_command/build_version.rs b/at-mac/src/load_command/build_version.rs
index 5366ae4..60eb64b 100644
--- a/at-mac/src/load_command/build_version.rs
+++ b/at-mac/src/load_command/build_version.rs
@@ -41,7 +41,11 @@ impl BuildVersionCommand {
 
         let ntools = read.read_u32_in(endian);
 
-        assert_eq!(cmdsize, Self::SIZE + BuildToolVersion::SIZE * ntools);
+        // in 64 bits, which no number of tools can overflow
+        assert_eq!(
+            cmdsize as u64,
+            Self::SIZE as u64 + BuildToolVersion::SIZE as u64 * ntools as u64
+        );
 
         BuildVersionCommand {
             cmd,
diff --git a/at-mac/src/load_command/segment64.rs b/at-mac/src/load_command/segment64.rs
index 0df7c18..d7b3a35 100644
--- a/at-mac/src/load_command/segment64.rs
+++ b/at-mac/src/load_command/segment64.rs
@@ -55,7 +55,11 @@ impl SegmentCommand64 {
         let nsects = read.read_u32_in(endian);
         let flags = read.read_u32_in(endian);
 
-        assert_eq!(cmdsize, Self::SIZE + nsects * Section64::SIZE);
+        // in 64 bits, which no number of sections can overflow
+        assert_eq!(
+            cmdsize as u64,
+            Self::SIZE as u64 + nsects as u64 * Section64::SIZE as u64
+        );
 
         SegmentCommand64 {
             cmd,
-- 
2.43.0


From f71a4bc73961f9a1f9d862efae8eb1515604603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:21 +0000
Subject: [PATCH 24/26] fix: an object beyond 32-bit file offsets or 64-bit
 addresses is refused, not written with truncated ones

---
 at-obj/src/macho.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 1e0d2d3..26287cb 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -40,6 +40,8 @@ use std::io::Write;
 
 /// ObjectをMach-O形式で書き込む
 pub fn write_into<W: Write>(object: &Object, write: &mut W) {
+    check_size(object);
+
     // write Header64
     gen_header64(object).write_into(write);
 
@@ -74,6 +76,35 @@ pub fn write_into<W: Write>(object: &Object, write: &mut W) {
     write.write_all(stab.as_ref()).unwrap();
 }
 
+/// Refuses an object which has no Mach-O file,
+/// because offsets in the file are 32-bit and addresses are 64-bit numbers.
+fn check_size(object: &Object) {
+    let mut file_size = (Header64::SIZE + SegmentCommand64::SIZE + SymtabCommand::SIZE) as u64;
+    let mut data_size = 0_u64;
+    let mut vm_size = 0_u64;
+    object.sections().iter().for_each(|sect| {
+        let addr = vm_size;
+        vm_size = addr
+            .checked_add(sect.vm_size())
+            .expect("sections do not fit in the address space");
+
+        data_size += sect.file_data().len() as u64;
+        file_size += Section64::SIZE as u64
+            + sect.relocs().len() as u64 * RelocationInfo::SIZE as u64
+            + sect.symbols().len() as u64 * NList64::SIZE as u64;
+
+        sect.symbols().iter().for_each(|sym| {
+            file_size += sym.name().len() as u64 + 1;
+            if let Symbol::Ref { addr: offset, .. } = sym {
+                addr.checked_add(*offset)
+                    .expect("symbol is out of the address space");
+            }
+        });
+    });
+    file_size += data_size.aligned(8) + 1;
+    assert!(file_size <= u32::MAX as u64, "object is too large");
+}
+
 /// object形式の `Header64` を生成する.
 /// 現状、x86-64限定.
 fn gen_header64(object: &Object) -> Header64 {
-- 
2.43.0


From c8450355ce4f5e33277f2b9cbcfe902d34737892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:24 +0000
Subject: [PATCH 25/26] fix: a relocation beyond 2 GB in its section is
 refused, not written with a negative address

---
 at-asm/src/assembler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/at-asm/src/assembler.rs b/at-asm/src/assembler.rs
index 542e3bd..8847d3a 100644
--- a/at-asm/src/assembler.rs
+++ b/at-asm/src/assembler.rs
@@ -91,6 +91,11 @@ impl Assembler {
                 }
                 Line::Instruction(inst) => {
                     if let Some(loc_reloc) = inst.reloc {
+                        let addr = self.cur_sect_mut().size() + loc_reloc.offset as u64;
+                        if addr > i32::MAX as u64 {
+                            eprintln!("error at line {}: relocation is beyond 2 GB", self.cur_line);
+                            exit(1);
+                        }
                         let reloc = Reloc {
                             addr: self.cur_sect_mut().size() as i32 + loc_reloc.offset as i32,
                             symbol: loc_reloc.symbol,
-- 
2.43.0


From 9eb5b85d4ddf3e5c20c4eab14db04e7bac2228f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:02 +0000
Subject: [PATCH 26/26] fix: keep the relocations of sections that have no
 contents or symbols

A section without bytes and symbols was left out of the file together
with its relocations.
---
 at-obj/src/object.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/at-obj/src/object.rs b/at-obj/src/object.rs
index c456657..2909ef6 100644
--- a/at-obj/src/object.rs
+++ b/at-obj/src/object.rs
@@ -44,7 +44,7 @@ pub struct Sections {
 
 impl Sections {
     /// iterate of all sections except empty section
-    /// (one that has neither contents nor symbols).
+    /// (one that has no contents, symbols or relocations).
     pub(crate) fn iter<'a>(&'a self) -> impl Iterator<Item = SectionRef<'a>> {
         let arr = [
             SectionRef::Text(&self.text),
@@ -77,7 +77,7 @@ impl<'a> SectionRef<'a> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.vm_size() == 0 && self.symbols().is_empty()
+        self.vm_size() == 0 && self.symbols().is_empty() && self.relocs().is_empty()
     }
 
     pub(crate) fn file_data(&self) -> &[u8] {
-- 
2.43.0

