From 007df21669e65bed0e78ee06dbe2c4f8a1560a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 01/42] fix: wrap addresses, stack pointer and program counter
 at 16 bits

The guest's address arithmetic used checked additions, so that an unoptimised
build of the emulator panicked as soon as a guest address wrapped (for example
`load r1, rs, -2`, whose offset is encoded as 0xfffe, or a push with rs < 2).
---
 src/blf4/isa/handlers.rs | 18 +++++++++---------
 src/blf4/mod.rs          | 14 +++++++-------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index d062c2a..28de171 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -428,7 +428,7 @@ fn call(c: &mut HandlerContext) -> OpRes {
 }
 fn ret(c: &mut HandlerContext) -> OpRes {
     let b = arg_imm_byte(c)?;
-    c.cpu.stack += b as u16;
+    c.cpu.stack = c.cpu.stack.wrapping_add(b as u16);
     c.cpu.program_counter = c.cpu.link;
 
     Ok(())
@@ -437,7 +437,7 @@ fn store_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Br)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r2))?;
 
     Ok(())
@@ -450,7 +450,7 @@ fn store_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r3))?;
 
     Ok(())
@@ -459,7 +459,7 @@ fn store_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r2)?)?;
 
     Ok(())
@@ -472,7 +472,7 @@ fn store_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r3)?)?;
 
     Ok(())
@@ -481,7 +481,7 @@ fn load_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Br, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -495,7 +495,7 @@ fn load_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -505,7 +505,7 @@ fn load_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
@@ -519,7 +519,7 @@ fn load_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 2311c6c..eef794e 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -473,7 +473,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn fetch(&mut self) -> OpRes<u8> {
         let addr = self.cpu.program_counter;
-        self.cpu.program_counter += 1;
+        self.cpu.program_counter = addr.wrapping_add(1);
         let addr = self.addr_resolve(addr, AccessMode::Execute)?;
         Ok(self.mem.read(addr))
     }
@@ -491,7 +491,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn read_wide(&mut self, addr: u16) -> OpRes<u16> {
         let lower = self.read(addr)?;
-        let higher = self.read(addr + 1)?;
+        let higher = self.read(addr.wrapping_add(1))?;
 
         Ok(u16::from_le_bytes([lower, higher]))
     }
@@ -500,7 +500,7 @@ impl HandlerContext<'_> {
         let [lower, higher] = val.to_le_bytes();
 
         self.write(addr, lower)?;
-        self.write(addr + 1, higher)?;
+        self.write(addr.wrapping_add(1), higher)?;
 
         Ok(())
     }
@@ -515,24 +515,24 @@ impl HandlerContext<'_> {
 
     #[must_use = "error must be handled"]
     pub fn pushw(&mut self, w: u16) -> OpRes<()> {
-        self.cpu.stack -= 2;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(2);
         self.write_wide(self.cpu.stack, w)
     }
     #[must_use = "error must be handled"]
     pub fn pushb(&mut self, b: u8) -> OpRes<()> {
-        self.cpu.stack -= 1;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(1);
         self.write(self.cpu.stack, b)
     }
     #[must_use = "error must be handled"]
     pub fn popw(&mut self) -> OpRes<u16> {
         let w = self.read_wide(self.cpu.stack)?;
-        self.cpu.stack += 2;
+        self.cpu.stack = self.cpu.stack.wrapping_add(2);
         Ok(w)
     }
     #[must_use = "error must be handled"]
     pub fn popb(&mut self) -> OpRes<u8> {
         let b = self.read(self.cpu.stack)?;
-        self.cpu.stack += 1;
+        self.cpu.stack = self.cpu.stack.wrapping_add(1);
         Ok(b)
     }
     #[must_use = "error must be handled"]
-- 
2.43.0


From eb1dacdd22999d5fc6e5162df1ad68b8c4a40ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 02/42] fix: take shift counts modulo the operand width

A count of at least the operand width (or a negative one) made an unoptimised
build of the emulator panic; optimised builds already take the count modulo
the width, which is now what every build does.
---
 src/blf4/isa/handlers.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index 28de171..5d36592 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -270,37 +270,45 @@ fn xor_w(c: &mut HandlerContext) -> OpRes {
     binop_w(c, |x, y| (x ^ y, false), |x, y| (x ^ y, false))
 }
 fn shl_b(c: &mut HandlerContext) -> OpRes {
-    binop_b(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_b(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn shl_w(c: &mut HandlerContext) -> OpRes {
-    binop_w(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_w(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn asr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (((x as i8) >> y) as u8, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i8).wrapping_shr(y as u32) as u8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn asr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (((x as i16) >> y) as u16, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i16).wrapping_shr(y as u32) as u16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn lsr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u8) >> y) as i8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u8).wrapping_shr(y as u32) as i8, false),
     )
 }
 fn lsr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u16) >> y) as i16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u16).wrapping_shr(y as u32) as i16, false),
     )
 }
 fn mul_b(c: &mut HandlerContext) -> OpRes {
-- 
2.43.0


From 72a3bc695e84bc68f916042bed086ae9c10c764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 03/42] fix: deliver traps from fetching the opcode to the trap
 handler

A fault while fetching the opcode byte was returned straight to the machine,
although a fault on any other byte of the instruction enters the installed
trap handler.
---
 src/blf4/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index eef794e..7016e5b 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -234,9 +234,11 @@ impl Cpu for Blf4 {
     fn execute_instruction<M: MainMemory>(&mut self, mem: &mut M) -> OpRes<(), Self::TrapMode> {
         let mut ctx = HandlerContext { cpu: self, mem };
 
-        let opcode = ctx.fetch()?;
+        let res = ctx
+            .fetch()
+            .and_then(|opcode| OP_HANDLERS[opcode as usize](&mut ctx));
 
-        match OP_HANDLERS[opcode as usize](&mut ctx) {
+        match res {
             Ok(()) => (),
             Err(tm) => {
                 ctx.cpu.flags.trap = true;
-- 
2.43.0


From c9d55c2d97131fa622a8c98140dcaee1773e4d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 04/42] fix: save program counter and interrupted flags for
 reth

The trap frame lacked the program counter, so a trap handler could not return
to the interrupted program, and it held the flags as already changed for the
handler, so that reth resumed an interrupted user program in supervisor mode.
---
 src/blf4/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 7016e5b..82b7666 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -241,12 +241,13 @@ impl Cpu for Blf4 {
         match res {
             Ok(()) => (),
             Err(tm) => {
+                let flags = ctx.cpu.flags;
                 ctx.cpu.flags.trap = true;
                 ctx.cpu.flags.user_mode = false;
                 if ctx.cpu.trap_handler == 0 {
                     return Err(tm);
                 } else {
-                    ctx.push_registers()?;
+                    ctx.push_registers(flags)?;
                     self.program_counter = self.trap_handler;
                     self.write_wr(R1, tm as u8 as u16)?;
                 }
@@ -538,8 +539,9 @@ impl HandlerContext<'_> {
         Ok(b)
     }
     #[must_use = "error must be handled"]
-    pub fn push_registers(&mut self) -> OpRes<()> {
-        self.pushw(self.cpu.flags.into())?;
+    pub fn push_registers(&mut self, flags: Blf4Flags) -> OpRes<()> {
+        self.pushw(flags.into())?;
+        self.pushw(self.cpu.program_counter)?;
         for r in 1..=15 {
             let w = self.cpu.read_wr(WideRegister(U4::new(r)))?;
             self.pushw(w)?;
@@ -553,7 +555,9 @@ impl HandlerContext<'_> {
             let w = self.popw()?;
             self.cpu.write_wr(WideRegister(U4::new(r)), w)?;
         }
+        let program_counter = self.popw()?;
         self.cpu.flags = self.popw()?.into();
+        self.cpu.program_counter = program_counter;
 
         Ok(())
     }
-- 
2.43.0


From 08f54fd96ac6dd03aa5407797bf0cd4a47f0cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 05/42] fix: set the dirty flag in the entry that lacks it

With the first-level entry already dirty and the second-level one clean, the
flag byte of the second-level entry was written over the first-level entry.
---
 src/blf4/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 82b7666..c2e3357 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -377,14 +377,15 @@ impl HandlerContext<'_> {
 
         // set dirty bit to any entry that isn't marked as dirty, if the access mode is write
         if matches!(mode, AccessMode::Write) {
-            let dirty_iter = [lvl1_entry_addr, lvl2_entry_addr].into_iter().zip(
-                lvl1_entry
-                    .byte_with_dirty_flag
-                    .into_iter()
-                    .chain(lvl2_entry.byte_with_dirty_flag),
-            );
-
-            for (addr, undirty_byte) in dirty_iter {
+            let undirty_entries = [
+                (lvl1_entry_addr, lvl1_entry.byte_with_dirty_flag),
+                (lvl2_entry_addr, lvl2_entry.byte_with_dirty_flag),
+            ];
+
+            for (addr, undirty_byte) in undirty_entries {
+                let Some(undirty_byte) = undirty_byte else {
+                    continue;
+                };
                 // set dirty flag
                 let new_dirty_byte = undirty_byte | 0b0001_0000;
                 // convert to byte because the dirty flag is in the first byte
-- 
2.43.0


From 5b1de9db129a159712562d8837c82cbff8904a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 06/42] fix: accept ROM images smaller than the ROM

with_rom indexed the image beyond its end, so `t -r` panicked for every image
that did not fill the ROM exactly.
---
 src/mem.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mem.rs b/src/mem.rs
index e0626a4..aab4428 100644
--- a/src/mem.rs
+++ b/src/mem.rs
@@ -83,7 +83,9 @@ impl<P> LazyMain<P> {
     }
     pub fn with_rom(mut self, bytes: &[u8]) -> Self {
         assert!(bytes.len() <= ROM_SIZE, "bytes cannot be bigger than ROM");
-        self.rom = Some(std::array::from_fn(|i| bytes[i]));
+        let mut rom = [0; ROM_SIZE];
+        rom[..bytes.len()].copy_from_slice(bytes);
+        self.rom = Some(rom);
         self
     }
 }
-- 
2.43.0


From 3e7d4cb9d2ae70937f3d1526640f32da72db9d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 07/42] fix: give the stack size its own section name

Stack and heap size shared a section name, so that an object with only a heap
size was read back with it as its stack size.
---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 09ae058..a3cc3aa 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -85,7 +85,7 @@ impl Section for BinarySegment {
     }
 }
 impl Section for StackSize {
-    const NAME: &'static str = "_heap_size";
+    const NAME: &'static str = "_stack_size";
     fn read<R: Read>(mut reader: R) -> io::Result<Self> {
         let mut buf = [0; 2];
         reader.read_exact(&mut buf)?;
-- 
2.43.0


From 75a07b03f51a845c099acf2cd40870b14ac2fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 08/42] fix: relocate labels in wide directives at the right
 place

The segment's start was added twice to the location, so that linking an object
with `.wide label` panicked or overwrote other bytes.
---
 src/bin/tc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tc.rs b/src/bin/tc.rs
index 3abde82..1e2e311 100644
--- a/src/bin/tc.rs
+++ b/src/bin/tc.rs
@@ -34,7 +34,7 @@ fn main() -> ExitCode {
             lines.push(dls.lines);
         }
 
-        for ((&st, &mut (segment_start, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
+        for ((&st, &mut (_, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
             for data_line in lines {
                 match data_line {
                     DataLine::Raw(mut bytes) => {
@@ -44,7 +44,7 @@ fn main() -> ExitCode {
                     DataLine::Wide(Wide::Label(id)) => {
                         let lr = LabelRead {
                             segment: st,
-                            position: mem.len() as u16 + segment_start,
+                            position: mem.len() as u16,
                         };
                         label_reads[id].push(lr);
                         let w = labels[id].3;
-- 
2.43.0


From b654b938e0854aed405743e88cdbac8b0deab14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 09/42] fix: disassemble the fourth operand of mul and div

---
 src/disassemble.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 47c4ec3..c286db7 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -198,10 +198,10 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
         ASR_W => binop("asr", WideRegister, &mut c, f)?,
         LSR_B => binop("lsr", ByteRegister, &mut c, f)?,
         LSR_W => binop("lsr", WideRegister, &mut c, f)?,
-        DIV_B => binop("div", ByteRegister, &mut c, f)?,
-        DIV_W => binop("div", WideRegister, &mut c, f)?,
-        MUL_B => binop("mul", ByteRegister, &mut c, f)?,
-        MUL_W => binop("mul", WideRegister, &mut c, f)?,
+        DIV_B => quadop("div", ByteRegister, &mut c, f)?,
+        DIV_W => quadop("div", WideRegister, &mut c, f)?,
+        MUL_B => quadop("mul", ByteRegister, &mut c, f)?,
+        MUL_W => quadop("mul", WideRegister, &mut c, f)?,
         b => {
             write!(f, "0x{b:02x}").unwrap();
             ends_block = true;
@@ -262,6 +262,19 @@ fn binop<T: Display, RF: Fn(U4) -> T>(
     Ok(())
 }
 
+fn quadop<T: Display, RF: Fn(U4) -> T>(
+    name: &str,
+    rf: RF,
+    c: &mut HandlerContext,
+    f: &mut String,
+) -> Result<(), TrapMode> {
+    let (r1, r2) = arg_pair(c, &rf, &rf)?;
+    let (r3, r4) = arg_pair(c, &rf, &rf)?;
+    write!(f, "{name} {r1}, {r2}, {r3}, {r4}").unwrap();
+
+    Ok(())
+}
+
 enum Operand<'a> {
     Byte(u8),
     Wide(u16),
-- 
2.43.0


From 060a8d2de0792f08b9502ca87e98959f633c0eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 10/42] fix: report unfinished hexadecimal escapes instead of
 panicking

---
 src/source/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index f3a368d..ba86143 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -316,8 +316,11 @@ fn parse_bytechar(s: &[u8]) -> StdResult<(u8, &[u8]), ErrorType> {
             b'\'' => (b'\'', &s[2..]),
             b'\"' => (b'\"', &s[2..]),
             b'x' => (
-                u8::from_str_radix(String::from_utf8_lossy(&s[2..4]).as_ref(), 16)
-                    .map_err(|_| InvalidEscapeSequence)?,
+                s.get(2..4)
+                    .filter(|digits| digits.iter().all(u8::is_ascii_hexdigit))
+                    .and_then(|digits| std::str::from_utf8(digits).ok())
+                    .and_then(|digits| u8::from_str_radix(digits, 16).ok())
+                    .ok_or(InvalidEscapeSequence)?,
                 &s[4..],
             ),
             c => return Err(InvalidEscapeCharacter(*c)),
-- 
2.43.0


From 2101da808d2c7fe7e16236f999958f77c4c7fa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 11/42] fix: reject surplus operands

---
 src/source/mod.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index ba86143..9a13aaa 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -966,6 +966,7 @@ impl DataOperand {
     fn parse_byte_imm<'a>(mut ops: impl Iterator<Item = &'a SourceOperand>) -> Option<DataOperand> {
         let reg1 = ops.next()?;
         let imm = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ByteImm(
             Self::byte(reg1)?,
             Self::imm_byte(imm)?,
@@ -978,6 +979,7 @@ impl DataOperand {
     ) -> Option<DataOperand> {
         let reg1 = ops.next()?;
         let imm = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImm(
             Self::wide(reg1)?,
             Self::imm_wide(imm, sym, sl)?,
@@ -989,6 +991,7 @@ impl DataOperand {
         let reg1 = ops.next()?;
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ThreeByte(
             Self::byte(reg1)?,
             Self::byte(reg2)?,
@@ -1001,6 +1004,7 @@ impl DataOperand {
         let reg1 = ops.next()?;
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ThreeWide(
             Self::wide(reg1)?,
             Self::wide(reg2)?,
@@ -1015,6 +1019,7 @@ impl DataOperand {
         let reg1 = Self::wide(ops.next()?)?;
         let imm = Self::imm_wide(ops.next()?, sym, sl)?;
         let reg2 = Self::byte(ops.next()?)?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImmByte(reg1, imm, reg2))
     }
     fn parse_wide_imm_wide<'a>(
@@ -1025,47 +1030,56 @@ impl DataOperand {
         let reg1 = Self::wide(ops.next()?)?;
         let imm = Self::imm_wide(ops.next()?, sym, sl)?;
         let reg2 = Self::wide(ops.next()?)?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImmWide(reg1, imm, reg2))
     }
     fn parse_two_wide_one_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-        Some(DataOperand::TwoWideOneByte(
+        let ret = Some(DataOperand::TwoWideOneByte(
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::byte(ops.next()?)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_byte_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
         sym: &mut Symbols,
         sl: SourceLocation,
     ) -> Option<DataOperand> {
-        Some(DataOperand::ByteWideImm(
+        let ret = Some(DataOperand::ByteWideImm(
             Self::byte(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::imm_wide(ops.next()?, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_two_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
         sym: &mut Symbols,
         sl: SourceLocation,
     ) -> Option<DataOperand> {
-        Some(DataOperand::TwoWideImm(
+        let ret = Some(DataOperand::TwoWideImm(
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::imm_wide(ops.next()?, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_byte_two_wide<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-        Some(DataOperand::ByteTwoWide(
+        let ret = Some(DataOperand::ByteTwoWide(
             Self::byte(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_four_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
@@ -1074,7 +1088,7 @@ impl DataOperand {
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
         let reg4 = ops.next()?;
-        Self::parse_nothing(ops);
+        Self::parse_nothing(ops)?;
         Some(DataOperand::FourByte(
             Self::byte(reg1)?,
             Self::byte(reg2)?,
@@ -1089,7 +1103,7 @@ impl DataOperand {
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
         let reg4 = ops.next()?;
-        Self::parse_nothing(ops);
+        Self::parse_nothing(ops)?;
         Some(DataOperand::FourWide(
             Self::wide(reg1)?,
             Self::wide(reg2)?,
-- 
2.43.0


From 935c66d24765383e7e17202f821543ac0e62d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 12/42] fix: report unreadable files in the exit status of
 tobjdump

---
 src/bin/tobjdump.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 06b2617..3330db2 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -93,7 +93,7 @@ fn main() -> ExitCode {
         }
     } 
 
-    ExitCode::SUCCESS
+    ret
 }
 
 fn symbols(obj: &Object) {
-- 
2.43.0


From 5494eb7d3931a05a67b7c358965bf4627d08b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 13/42] fix: refuse to write sections that are too large for
 the format

---
 src/aalv/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 8db48e2..ba4ed68 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -208,8 +208,15 @@ impl<F: Write + Seek> AalvWriter<F> {
         segment.write(&mut w)?;
         let CountedWriter { writer: _, length } = w;
 
+        let size = u16::try_from(length).map_err(|_| {
+            io::Error::new(
+                ErrorKind::InvalidInput,
+                format!("section {} is too large", S::NAME),
+            )
+        })?;
+
         self.file.seek(SeekFrom::Current(-(length as i64) - 2))?;
-        self.file.write_all(&(length as u16).to_le_bytes())?;
+        self.file.write_all(&size.to_le_bytes())?;
         self.file.seek(SeekFrom::Current(length as i64))?;
 
         Ok(())
-- 
2.43.0


From 5043cf47a667baf2f442e3c024a8becd0c876f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 14/42] fix: report malformed object files instead of panicking

---
 src/aalv/obj.rs          | 5 ++++-
 src/aalv/obj/sec_impl.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index abc0a71..e15942c 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -60,7 +60,10 @@ impl Object {
         };
 
         if aalvur.remaing_sections().any(|s| s.starts_with('_')) {
-            unimplemented!("error unexpected sections")
+            Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "unexpected section",
+            ))
         } else {
             Ok(obj)
         }
diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index a3cc3aa..7efa1b7 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -118,7 +118,7 @@ impl Section for SymbolTable {
 
             let segment_type = segment_type_from_u8(stype)?;
 
-            let is_global = namebuf[0] != b' ';
+            let is_global = namebuf.first() != Some(&b' ');
             let name = if is_global {
                 String::from_utf8_lossy(&namebuf).into()
             } else {
-- 
2.43.0


From 88718f9a47c72f9dda543c51257d473a3fda3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 15/42] fix: find the object signature after a partial match

---
 src/aalv/mod.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index ba4ed68..acde0a4 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -77,21 +77,15 @@ impl<F: BufRead + Seek> AalvReader<F> {
     }
 
     fn read_magic(&mut self) -> Result<()> {
-        // Find magic
-        loop {
-            let first_magic_byte = AALV_MAGIC.as_bytes()[0];
-            let mut magic_buf = [0; AALV_MAGIC.len()];
-
-            while first_magic_byte != magic_buf[0] {
-                self.file.read_exact(&mut magic_buf[..1])?;
-            }
-            self.file_offset = self.file.stream_position()? - 1;
+        let mut magic_buf = [0; AALV_MAGIC.len()];
+        self.file.read_exact(&mut magic_buf)?;
 
-            self.file.read_exact(&mut magic_buf[1..])?;
-            if magic_buf == AALV_MAGIC.as_bytes() {
-                break;
-            }
+        // Find magic by moving a window over the file byte by byte
+        while magic_buf != AALV_MAGIC.as_bytes() {
+            magic_buf.rotate_left(1);
+            self.file.read_exact(&mut magic_buf[AALV_MAGIC.len() - 1..])?;
         }
+        self.file_offset = self.file.stream_position()? - AALV_MAGIC.len() as u64;
 
         Ok(())
     }
-- 
2.43.0


From a18f5d87f1a5c42bea0199e7835f5f3d6381a7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 16/42] fix: map the heap from the end of the heap segment

---
 src/blf4/std_kernel/load_user_binary.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/blf4/std_kernel/load_user_binary.rs b/src/blf4/std_kernel/load_user_binary.rs
index 9f86c6a..733735d 100644
--- a/src/blf4/std_kernel/load_user_binary.rs
+++ b/src/blf4/std_kernel/load_user_binary.rs
@@ -1,6 +1,6 @@
 use crate::{
     aalv::obj::{Flags, Object, SegmentType},
-    align_end, align_start,
+    align_start,
     machine::Machine,
     mem::MainMemory,
     PAGE_SIZE,
@@ -47,9 +47,11 @@ impl<M: MainMemory> Machine<M, Blf4> {
 
             mmbuilder.add_segment(permissions, offset, bytes);
             if heap {
-                let heap = align_end(offset, PAGE_SIZE);
-                let size = heap_size - bytes.len() as u16;
-                mmbuilder.map_wr_pages(heap, size);
+                // the bytes of the segment are mapped already, map the rest of the heap
+                let end = offset.saturating_add(bytes.len() as u16);
+                let rest = heap_size.saturating_sub(bytes.len() as u16);
+                let heap = align_start(end, PAGE_SIZE);
+                mmbuilder.map_wr_pages(heap, rest.saturating_add(end - heap));
             }
         }
 
-- 
2.43.0


From b9894580723337626a149e0f32d84c4780b740fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 17/42] fix: notice failure to write the end of an object file

---
 src/aalv/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index acde0a4..bc75faf 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -221,6 +221,7 @@ impl<F: Write> Drop for AalvWriter<F> {
     fn drop(&mut self) {
         self.file
             .write_all(&[0])
+            .and_then(|()| self.file.flush())
             .expect("writing of final álvur zero byte failed");
     }
 }
-- 
2.43.0


From 8b0f2e5c08eba292580c586f49d4398e3faffbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 18/42] fix: load segments that end at the end of the address
 space

---
 src/blf4/std_kernel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blf4/std_kernel.rs b/src/blf4/std_kernel.rs
index be554ec..ac26106 100644
--- a/src/blf4/std_kernel.rs
+++ b/src/blf4/std_kernel.rs
@@ -140,8 +140,10 @@ impl<M: MainMemory> MmapBuilder<'_, M> {
         // let mut bytes = bytes;
         // map all pages the segment overlaps with
         let start_vpage = align_start(offset, PAGE_SIZE);
-        let range = start_vpage..offset + bytes.len() as u16;
+        // the segment may end at the very end of the address space
+        let range = start_vpage as u32..offset as u32 + bytes.len() as u32;
         for vaddr in range.step_by(PAGE_SIZE as usize) {
+            let vaddr = vaddr as u16;
             let paddr = self.map(vaddr, perm_bits);
 
             // write page to memory
-- 
2.43.0


From a2ec89a7116ee74859ac587335fea5150a5e85b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 19/42] fix: clear every allocated page

---
 src/blf4/std_kernel.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/blf4/std_kernel.rs b/src/blf4/std_kernel.rs
index ac26106..83a5966 100644
--- a/src/blf4/std_kernel.rs
+++ b/src/blf4/std_kernel.rs
@@ -40,7 +40,7 @@ impl EKernel {
     }
     pub fn allocate_page<M: MainMemory>(&mut self, mem: &mut M) -> u32 {
         // Use page_bumper if free list is empty
-        if let Some(next_free) = self.next_free.take() {
+        let page = if let Some(next_free) = self.next_free.take() {
             let ret = next_free;
             let next_free = u32::from_le_bytes(read_n(mem, ret));
             // The special value `1` means the free list is empty
@@ -48,8 +48,6 @@ impl EKernel {
                 self.next_free = Some(next_free);
             }
 
-            write_n(mem, ret, &[0; 128]);
-
             ret
         } else {
             let ret = self.page_bumper;
@@ -57,7 +55,12 @@ impl EKernel {
             // on debug mode it'll panic rn, but release mode will wrap around which would lead to weird behaviour
             self.page_bumper += PAGE_SIZE_P;
             ret
-        }
+        };
+
+        // the memory might have been used before
+        write_n(mem, page, &[0; 128]);
+
+        page
     }
     #[allow(dead_code)]
     pub fn free_page<M: MainMemory>(&mut self, addr: u32, mem: &mut M) {
-- 
2.43.0


From 3b1f7fd72aaf983424e5623d6167e6ffb7855604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 20/42] fix: disassemble instructions at the end of the address
 space

---
 src/bin/tobjdump.rs | 3 ++-
 src/disassemble.rs  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 3330db2..263d856 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -250,7 +250,8 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
             };
 
             if show_relocations {
-                for (&loc, &sym) in relocs.range(location..next_instruction_location) {
+                let length = next_instruction_location.wrapping_sub(location);
+                for (&loc, &sym) in relocs.range(location..=location.saturating_add(length - 1)) {
                     println!("    RELOC: {} @ 0x{loc:02x}", get_name(sym));
                 }
             }
diff --git a/src/disassemble.rs b/src/disassemble.rs
index c286db7..884d165 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -214,13 +214,13 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
     write!(&mut annotated_source, "  {addr:04x}: ").unwrap();
 
     c.cpu.program_counter = addr;
-    for _ in addr..next_instruction_location {
+    for _ in 0..next_instruction_location.wrapping_sub(addr) {
         write!(&mut annotated_source, " {:02x}", c.fetch()?).unwrap();
     }
     // restore rpc
     c.cpu.program_counter = addr;
 
-    for _ in 0..(4 - (next_instruction_location - addr)) {
+    for _ in 0..(4 - next_instruction_location.wrapping_sub(addr)) {
         write!(&mut annotated_source, "   ").unwrap();
     }
     write!(&mut annotated_source, "    {op}").unwrap();
-- 
2.43.0


From 8da9024c3e391a0a160d5d624a2ddf96a3798c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 21/42] fix: keep the program counter when an instruction
 cannot be disassembled

---
 src/disassemble.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 884d165..f686217 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -40,6 +40,17 @@ pub struct DisassembledInstruction {
 pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
     machine: &mut Machine<M, Blf4>,
     label_lookup: F,
+) -> Result<DisassembledInstruction, TrapMode> {
+    let addr = machine.cpu.program_counter;
+    let res = inner_disassemble_instruction(machine, label_lookup);
+    // restore rpc, also if the instruction could not be read
+    machine.cpu.program_counter = addr;
+    res
+}
+
+fn inner_disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
+    machine: &mut Machine<M, Blf4>,
+    label_lookup: F,
 ) -> Result<DisassembledInstruction, TrapMode> {
     use crate::blf4::isa::*;
     let m = &mut StrictMemory {
@@ -217,8 +228,6 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
     for _ in 0..next_instruction_location.wrapping_sub(addr) {
         write!(&mut annotated_source, " {:02x}", c.fetch()?).unwrap();
     }
-    // restore rpc
-    c.cpu.program_counter = addr;
 
     for _ in 0..(4 - next_instruction_location.wrapping_sub(addr)) {
         write!(&mut annotated_source, "   ").unwrap();
-- 
2.43.0


From ac16f0660563eba7ba803c62ec5d1dd7a21e2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 22/42] fix: reject labels and entry points outside of segments

---
 src/source/mod.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 9a13aaa..1157286 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -475,6 +475,13 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
         Ok(ProcessedSource { labels, dls, entry })
     }
 }
+fn no_segment(src: &str, ln: u32) -> Error {
+    Error::new(
+        src,
+        ln,
+        ErrorType::Other("no segment was started".to_string().into_boxed_str()),
+    )
+}
 fn inner_process<B: BufRead>(
     mut lines: SourceLines<B>,
     state: &mut ProcessState,
@@ -505,10 +512,16 @@ fn inner_process<B: BufRead>(
                     return Err(Error::new(src, ln, ErrorType::DoubleEntry));
                 }
                 state.entry = Some(Address(*current_segment, state.get_size(*current_segment)));
+                if let SegmentType::Unknown = *current_segment {
+                    return Err(no_segment(src, ln));
+                }
             }
             SourceLine::Label(s) => {
                 let addr = Address(*current_segment, state.get_size(*current_segment));
                 symbols.set_label(&s, addr, SourceLocation::new(src, ln))?;
+                if let SegmentType::Unknown = *current_segment {
+                    return Err(no_segment(src, ln));
+                }
             }
             SourceLine::Ins(s, ops) => {
                 let Some((opcode, dat_op)) =
@@ -568,11 +581,7 @@ fn inner_process<B: BufRead>(
         }
 
         if state.unknown_defined() {
-            return Err(Error::new(
-                src,
-                ln,
-                ErrorType::Other("no segment was started".to_string().into_boxed_str()),
-            ));
+            return Err(no_segment(src, ln));
         }
 
         Ok(())
-- 
2.43.0


From 3a66f564f18970902830b41c500e6cd5a8ffc5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 23/42] fix: link objects with entry points or relocations in
 missing segments

---
 src/bin/tl.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 25e2222..5f70ae4 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -168,7 +168,12 @@ fn tl_main() -> Result<(), Error> {
     for (input_file, mut obj) in objects {
         entry_point = entry_point.or_else(|| {
             obj.entry
-                .map(|Entry(st, ep)| Entry(st, ep - obj.segs[&st].0 + segs[&st].0))
+                .map(|Entry(st, ep)| {
+                    // a missing segment is treated as empty, like for symbols
+                    let old_start = obj.segs.get(&st).map(|s| s.0).unwrap_or(0);
+                    let new_start = segs.get(&st).map(|s| s.0).unwrap_or(0);
+                    Entry(st, ep - old_start + new_start)
+                })
         });
 
         let mut file_symbol_to_out_symbol = Vec::new();
@@ -229,7 +234,11 @@ fn tl_main() -> Result<(), Error> {
         {
             let symbol_index = file_symbol_to_out_symbol[symbol_index as usize];
 
-            let location_in_file = reference_location - obj.segs[&reference_segment].0;
+            let &(file_start, _) = obj
+                .segs
+                .get(&reference_segment)
+                .ok_or(Error::ReferenceToNonExistantSegment)?;
+            let location_in_file = reference_location - file_start;
             let reference_location = location_in_file + segs[&reference_segment].0;
 
             let bytes = &mut obj
-- 
2.43.0


From f6d9055ad44bf10c3de0bcbfed76406f3bc1e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 24/42] fix: reject undefined symbols as entry point

---
 src/bin/tl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 5f70ae4..90e92ca 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -305,8 +305,11 @@ fn tl_main() -> Result<(), Error> {
                     SegmentType::Zero,
                     u16::from_str_radix(entry, 16).map_err(Error::InvalidEntryPointFormat)?,
                 )
-            } else if let Some(&pos) = global_symbols.get(&*entry) {
-                let sym = &symbols_out[pos];
+            } else if let Some(sym) = global_symbols
+                .get(&*entry)
+                .map(|&pos| &symbols_out[pos])
+                .filter(|sym| sym.segment_type != SegmentType::Unknown)
+            {
                 Entry(sym.segment_type, sym.location)
             } else {
                 eprintln!("Start symbol {entry} was not found. Perhaps it is not global?");
-- 
2.43.0


From 3e9742c8413ec76e0ff063c952f688bc74a6f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 25/42] fix: keep the zero segment when linking

---
 src/bin/tl.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 90e92ca..78e8afb 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -135,7 +135,11 @@ fn tl_main() -> Result<(), Error> {
                 *lengths.entry(stype).or_insert(0) += v.len() as u16;
             }
         }
-        let mut last_end = lengths.remove(&SegmentType::Zero).unwrap_or(0);
+        let mut last_end = 0;
+        if let Some(size) = lengths.remove(&SegmentType::Zero) {
+            segs_out.insert(SegmentType::Zero, (0, Vec::with_capacity(size as usize)));
+            last_end = size;
+        }
         last_end = last_end.max(PAGE_SIZE);
 
         for (st, size) in lengths {
-- 
2.43.0


From 15b6617efab34a8c297ade56bb56adc80d275006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 26/42] fix: show the last line of output in the debugger

---
 src/bin/tdbg.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index a626247..24a7055 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -18,15 +18,30 @@ struct DbgIo {
     out_buf: Vec<u8>,
 }
 
+impl DbgIo {
+    fn show_line(&mut self) {
+        print!("STDOUT line: ");
+        std::io::stdout()
+            .write_all(&self.out_buf)
+            .expect("stdout failed");
+        println!();
+        self.out_buf.clear();
+    }
+}
+
+impl Drop for DbgIo {
+    fn drop(&mut self) {
+        // show unfinished line
+        if !self.out_buf.is_empty() {
+            self.show_line();
+        }
+    }
+}
+
 impl Io for DbgIo {
     fn write(&mut self, _addr: u8, val: u8) {
         if val == b'\n' {
-            print!("STDOUT line: ");
-            std::io::stdout()
-                .write_all(&self.out_buf)
-                .expect("stdout failed");
-            println!();
-            self.out_buf.clear();
+            self.show_line();
         } else {
             self.out_buf.push(val);
         }
-- 
2.43.0


From 3dcaaac2434ebe19ce4b33db3a67888751ed35c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 27/42] fix: keep the debugger from panicking or looping
 forever

---
 src/bin/tdbg.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 24a7055..58d8c66 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -8,7 +8,7 @@ use std::{
 use telda2::{
     aalv::obj::{Object, SymbolDefinition},
     blf4::*,
-    disassemble::disassemble_instruction,
+    disassemble::{disassemble_instruction, DisassembledInstruction},
     machine::Machine,
     mem::{Io, LazyMain},
 };
@@ -51,7 +51,11 @@ impl Io for DbgIo {
             print!("STDIN requested: ");
             stdout().flush().expect("stdin failed");
             let mut buf = String::new();
-            std::io::stdin().read_line(&mut buf).expect("stdin failed");
+            if std::io::stdin().read_line(&mut buf).expect("stdin failed") == 0 {
+                println!();
+                eprintln!("end of input");
+                std::process::exit(1);
+            }
             self.in_buf.extend(buf.into_bytes());
         }
         self.in_buf
@@ -165,7 +169,16 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
 
     'disassemble_loop: loop {
         let dins =
-            disassemble_instruction(&mut machine, |p| pos_to_labels.get(&p).map(|s| &**s)).unwrap();
+            disassemble_instruction(&mut machine, |p| pos_to_labels.get(&p).map(|s| &**s));
+        let dins = dins.unwrap_or_else(|tm| {
+            let pc = machine.cpu.program_counter;
+            DisassembledInstruction {
+                annotated_source: format!("  {pc:04x}:  could not be read: {tm:?}"),
+                ends_block: true,
+                nesting_difference: 0,
+                next_instruction_location: pc,
+            }
+        });
 
         if false && todo!("is trapping") {
             println!("handled trap encountered!");
@@ -199,7 +212,11 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
             stdout().flush().expect("stdout failed");
 
             input.clear();
-            stdin.read_line(&mut input).expect("stdin failed");
+            if stdin.read_line(&mut input).expect("stdin failed") == 0 {
+                // end of input
+                println!();
+                break 'disassemble_loop;
+            }
 
             match input.trim() {
                 "q" | "quit" => break 'disassemble_loop,
@@ -222,11 +239,12 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
                         }
                     };
                     let mut c = machine.cpu.context(&mut machine.memory);
-                    println!(
-                        " = 0x{:02x} 0x{:02x} ...",
-                        c.read(addr).unwrap(),
-                        c.read(addr + 1).unwrap()
-                    );
+                    match (c.read(addr), c.read(addr.wrapping_add(1))) {
+                        (Ok(b1), Ok(b2)) => println!(" = 0x{b1:02x} 0x{b2:02x} ..."),
+                        (Err(tm), _) | (_, Err(tm)) => {
+                            eprintln!("could not read memory: {tm:?}")
+                        }
+                    }
                 }
                 "r0b" => print_byte_register("r0b", R0B, &machine.cpu),
                 "r1l" => print_byte_register("r1l", R1L, &machine.cpu),
-- 
2.43.0


From 445a2b7dba4561880c4ccc1f87c048068e5488f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 28/42] Make the emulated kernel reachable for verification
 (cfg telda_verif)

---
 src/blf4/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index c2e3357..4ff1d34 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -13,6 +13,10 @@ pub mod isa;
 mod register_type;
 mod std_kernel;
 
+#[allow(unexpected_cfgs)]
+#[cfg(telda_verif)]
+pub use self::std_kernel::EKernel;
+
 pub use self::register_type::*;
 use isa::OP_HANDLERS;
 
-- 
2.43.0


From 5f005e4798b70d8829eeba584f238f67f3931811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 29/42] fix: end on unreadable source files and name lines that
 are not UTF-8

---
 src/source/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 1157286..6851b19 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -142,6 +142,23 @@ impl<B: BufRead> SourceLines<B> {
         loop {
             let line = self.lines.next()?;
             self.ln += 1;
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    // lines that are not text can be skipped, but a source
+                    // that cannot be read does not end by reading on
+                    let skip = e.kind() == std::io::ErrorKind::InvalidData;
+                    self.add_error(Error::new(
+                        self.source.clone(),
+                        self.ln,
+                        ErrorType::IoError(e),
+                    ));
+                    if skip {
+                        continue;
+                    }
+                    return None;
+                }
+            };
             match self.inner_parse_line(line) {
                 Ok(sl) => break Some((self.ln, sl)),
                 Err(e) => {
@@ -150,9 +167,8 @@ impl<B: BufRead> SourceLines<B> {
             }
         }
     }
-    fn inner_parse_line(&mut self, line: StdResult<String, IoError>) -> Result<SourceLine> {
+    fn inner_parse_line(&mut self, line: String) -> Result<SourceLine> {
         Ok({
-            let line = line?;
             let line = line.trim();
 
             if line.is_empty()
-- 
2.43.0


From d3f61bbdefa8bf48e06e00b4ccf443f776ab9dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 30/42] fix: accept the character literal of a comma as operand

---
 src/source/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 6851b19..89db20d 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -269,7 +269,7 @@ impl<B: BufRead> SourceLines<B> {
                 let (ins, args) = line.split_at(i);
                 let mut sos = Vec::new();
 
-                for arg in args.split(',') {
+                for arg in split_operands(args) {
                     let arg = arg.trim();
 
                     sos.push(match arg {
@@ -318,6 +318,21 @@ impl<B: BufRead> SourceLines<B> {
     }
 }
 
+/// Split at commas except for that of the character literal `','`
+fn split_operands(args: &str) -> Vec<&str> {
+    let mut operands = Vec::new();
+    let mut start = 0;
+    for (i, _) in args.match_indices(',') {
+        if args[start..i].trim_start() == "'" && args[i + 1..].starts_with('\'') {
+            continue;
+        }
+        operands.push(&args[start..i]);
+        start = i + 1;
+    }
+    operands.push(&args[start..]);
+    operands
+}
+
 fn parse_bytechar(s: &[u8]) -> StdResult<(u8, &[u8]), ErrorType> {
     use self::ErrorType::*;
 
-- 
2.43.0


From 33f5b7e8ef49208017324994653e0a19207cf43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 31/42] fix: report files that include themselves instead of
 overflowing the stack

---
 src/source/mod.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 89db20d..e3fff25 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -2,7 +2,7 @@ use std::{
     collections::BTreeMap,
     fs::File,
     io::{BufRead, BufReader, Lines},
-    path::Path,
+    path::{Path, PathBuf},
     slice::Iter,
 };
 
@@ -398,6 +398,8 @@ pub struct DataLineSegment {
 struct ProcessState {
     dls: BTreeMap<SegmentType, DataLineSegment>,
     pub entry: Option<Address>,
+    /// the files being processed, outermost first
+    open_files: Vec<PathBuf>,
 }
 
 impl ProcessState {
@@ -405,6 +407,7 @@ impl ProcessState {
         Self {
             dls: BTreeMap::new(),
             entry: None,
+            open_files: Vec::new(),
         }
     }
     fn get_size(&self, st: SegmentType) -> u16 {
@@ -425,10 +428,11 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
     let mut state = ProcessState::new();
 
     let src = lines.source.clone();
+    state.open_files.extend(Path::new(&*src).canonicalize());
 
     let mut errors = inner_process(lines, &mut state, &mut symbols);
 
-    let ProcessState { mut dls, entry } = state;
+    let ProcessState { mut dls, entry, .. } = state;
 
     let mut last_end = PAGE_SIZE;
     for s in dls.values_mut() {
@@ -596,7 +600,22 @@ fn inner_process<B: BufRead>(
                 };
 
                 let lines = SourceLines::new(path)?;
-                if let Some(e) = inner_process(lines, state, symbols) {
+                let file = path.canonicalize().unwrap_or_else(|_| path.to_owned());
+                if state.open_files.contains(&file) {
+                    return Err(Error::new(
+                        src,
+                        ln,
+                        ErrorType::Other(
+                            format!("`{}' includes itself", path.display()).into_boxed_str(),
+                        ),
+                    ));
+                }
+
+                state.open_files.push(file);
+                let errors = inner_process(lines, state, symbols);
+                state.open_files.pop();
+
+                if let Some(e) = errors {
                     return Err(e);
                 }
             }
-- 
2.43.0


From 6b372c1fd78a2f60b8d47343dcd9cd7039f1ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 32/42] fix: disassemble the privileged instructions

usr, vmon, vmoff, pstore and pload were shown as unknown bytes, and
pstore and pload with one byte instead of the three they occupy, so
that their operands were shown as instructions.
---
 src/disassemble.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index f686217..2ef639c 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -85,6 +85,19 @@ fn inner_disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a
             write!(f, "reth").unwrap();
             ends_block = true;
         }
+        USR => write!(f, "usr").unwrap(),
+        VMON => write!(f, "vmon").unwrap(),
+        VMOFF => write!(f, "vmoff").unwrap(),
+        PSTORE => {
+            let (r1, r2) = arg_pair(&mut c, ByteRegister, WideRegister)?;
+            let (r3, _) = arg_pair(&mut c, ByteRegister, identity)?;
+            write!(f, "pstore {r1}, {r2}, {r3}").unwrap();
+        }
+        PLOAD => {
+            let (r1, r2) = arg_pair(&mut c, ByteRegister, ByteRegister)?;
+            let (r3, _) = arg_pair(&mut c, WideRegister, identity)?;
+            write!(f, "pload {r1}, {r2}, {r3}").unwrap();
+        }
         NOP => write!(f, "nop").unwrap(),
         PUSH_B => {
             let (r1, _) = arg_pair(&mut c, ByteRegister, identity)?;
-- 
2.43.0


From 4fd71baf7ae47c8dde9132124ea4d9d8348939c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 33/42] fix: do not overflow when aligning addresses that are
 aligned already

align_end(0x8000, 0x8000) or align_end(0xff80, 128) overflowed although
the address needs no change, so that tl and tc failed on segments that
end there.
---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d949a8d..b057330 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,13 +18,12 @@ pub const fn align_start(addr: u16, alignment: u16) -> u16 {
 }
 pub const fn align_end(addr: u16, alignment: u16) -> u16 {
     let mask = alignment - 1;
-    let next_aligned = (addr + alignment) & !mask;
 
     // If the current end is already aligned, do nothing
     if addr & mask == 0 {
         addr
     } else {
-        next_aligned
+        (addr + alignment) & !mask
     }
 }
 
-- 
2.43.0


From 12344ca8aee1423a4bc3db1a1de364ac5a6cf10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 34/42] fix: the debugger shows an unfinished output line when
 it ends for lack of input

---
 src/bin/tdbg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 58d8c66..951721f 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -53,6 +53,10 @@ impl Io for DbgIo {
             let mut buf = String::new();
             if std::io::stdin().read_line(&mut buf).expect("stdin failed") == 0 {
                 println!();
+                // show unfinished line
+                if !self.out_buf.is_empty() {
+                    self.show_line();
+                }
                 eprintln!("end of input");
                 std::process::exit(1);
             }
-- 
2.43.0


From cf7c252af251dc1267b4f7c906eb6dfdb8a756b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 35/42] fix: tar reads its inputs before it opens the output,
 which may be one of them

---
 src/bin/tar.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bin/tar.rs b/src/bin/tar.rs
index 6cdca34..4208475 100644
--- a/src/bin/tar.rs
+++ b/src/bin/tar.rs
@@ -1,5 +1,5 @@
 use std::{
-    fs::File, io::{self, Write}, path::PathBuf, process::ExitCode
+    fs::{self, File}, io::{self, Write}, path::PathBuf, process::ExitCode
 };
 
 use clap::Parser;
@@ -34,12 +34,17 @@ fn tar_main() -> Result<(), io::Error> {
         output_file,
     } = Cli::parse();
 
+    // the output may be one of the input files
+    let inputs: Vec<_> = input_files
+        .into_iter()
+        .map(fs::read)
+        .collect::<Result<_, _>>()?;
+
     let mut out = File::create(output_file)?;
     out.write_all("álvasavn\n".as_bytes())?;
 
-    for input_file in input_files {
-        let mut input = File::open(input_file)?;
-        io::copy(&mut input, &mut out)?;
+    for input in inputs {
+        out.write_all(&input)?;
     }
     out.sync_all()?;
 
-- 
2.43.0


From ee68f15052b353a989b0516523aae559f0c93150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 36/42] fix: undefined symbols are not shown as termination
 point

---
 src/bin/t.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/t.rs b/src/bin/t.rs
index ebb66ce..3dd47f0 100644
--- a/src/bin/t.rs
+++ b/src/bin/t.rs
@@ -8,7 +8,7 @@ use std::{
 
 use clap::Parser;
 use telda2::{
-    aalv::obj::{Object, SymbolDefinition, SymbolTable},
+    aalv::obj::{Object, SegmentType, SymbolDefinition, SymbolTable},
     blf4::{Blf4, TrapMode},
     machine::Machine,
     mem::{LazyMain, StdIo},
@@ -86,8 +86,9 @@ fn t_main() -> Result<(), Error> {
         let pc = machine.cpu.program_counter;
         let mut diff = pc;
         let mut closest = "".into();
-        for SymbolDefinition { name, location, .. } in symbols {
-            if name.is_empty() {
+        for SymbolDefinition { name, location, segment_type, .. } in symbols {
+            // undefined symbols are nowhere
+            if name.is_empty() || segment_type == SegmentType::Unknown {
                 continue;
             }
             if pc >= location {
-- 
2.43.0


From 1587c7f6fc4a2964f9dd6dc4a1215a8e4bada1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 37/42] fix: any number of errors is reported without
 exhausting the stack

---
 src/source/err.rs | 34 ++++++++++++++--------------------
 src/source/mod.rs |  4 ++--
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/source/err.rs b/src/source/err.rs
index 4bbbaf2..1f27250 100644
--- a/src/source/err.rs
+++ b/src/source/err.rs
@@ -1,5 +1,6 @@
 use std::error::Error as ErrorTrait;
 use std::fmt::{self, Display};
+use std::{iter, mem};
 pub(super) use std::io::Error as IoError;
 pub(super) use std::result::Result as StdResult;
 
@@ -28,7 +29,8 @@ pub struct Error {
     source: Box<str>,
     ln: LineNumber,
     error: ErrorType,
-    next: Option<Box<Self>>,
+    /// the errors after this one, which have none of their own
+    rest: Vec<Self>,
 }
 
 impl Error {
@@ -37,18 +39,17 @@ impl Error {
             source: s.into(),
             ln,
             error,
-            next: None,
+            rest: Vec::new(),
         }
     }
     pub fn chain(mut self, second: Self) -> Self {
         self.chain_mut(second);
         self
     }
-    fn chain_mut(&mut self, second: Self) {
-        match &mut self.next {
-            Some(first) => first.chain_mut(second),
-            a @ None => *a = Some(Box::new(second)),
-        }
+    fn chain_mut(&mut self, mut second: Self) {
+        let rest = mem::take(&mut second.rest);
+        self.rest.push(second);
+        self.rest.extend(rest);
     }
     // pub(super) fn set_line_number(self, ln: LineNumber) -> Self {
     //     Self { ln, .. self }
@@ -69,16 +70,14 @@ impl ErrorTrait for Error {
 
 impl Display for Error {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let mut cur = Some(self);
-
-        while let Some(e) = cur {
+        for (i, e) in iter::once(self).chain(&self.rest).enumerate() {
             let Self {
-                source,
-                ln,
-                error,
-                next,
+                source, ln, error, ..
             } = e;
 
+            if i > 0 {
+                writeln!(f)?;
+            }
             if *ln == 0 {
                 write!(f, "{source}: ")?;
             } else {
@@ -100,11 +99,6 @@ impl Display for Error {
                 ErrorType::IncorrectOperands(s) => write!(f, "incorrect operands, expected {s}"),
                 ErrorType::Other(s) => write!(f, "{s}"),
             }?;
-            if next.is_some() {
-                writeln!(f)?;
-            }
-
-            cur = next.as_ref().map(|e| &**e);
         }
 
         Ok(())
@@ -117,7 +111,7 @@ impl From<IoError> for Error {
             ln: 0,
             source: "".to_owned().into_boxed_str(),
             error: ErrorType::IoError(e),
-            next: None,
+            rest: Vec::new(),
         }
     }
 }
diff --git a/src/source/mod.rs b/src/source/mod.rs
index e3fff25..40f82ef 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -482,8 +482,8 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
                             .map(|SourceLocation { source, line_number }| Error::new(source, line_number, ErrorType::Other(
                                     format!("non-global label `{l}' was never defined, but used here").into_boxed_str()
                                 )))
-                            // Reversed order to make it faster (since it's a linked list)
-                            .reduce(|accum, item| item.chain(accum))
+                            .rev()
+                            .reduce(|accum, item| accum.chain(item))
                             .expect("ghost label, expected at least one use location")
                             ;
                         add_error_opt(&mut errors, e);
-- 
2.43.0


From d9af230d62f1c223b38e88c1b804021257edbd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 38/42] fix: report programs that exceed the address space
 instead of overflowing

---
 src/source/mod.rs | 57 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 40f82ef..0928409 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -9,7 +9,6 @@ use std::{
 use crate::{
     aalv::obj::Entry,
     aalv::obj::SegmentType,
-    align_end,
     blf4::{ByteRegister as BReg, WideRegister as WReg, *},
     PAGE_SIZE, U4,
 };
@@ -413,10 +412,14 @@ impl ProcessState {
     fn get_size(&self, st: SegmentType) -> u16 {
         self.dls.get(&st).map(|dls| dls.size).unwrap_or(0)
     }
-    fn add_line(&mut self, st: SegmentType, line: DataLine, size: u16) {
+    /// Returns `None` if the line doesn't fit in the segment
+    fn add_line(&mut self, st: SegmentType, line: DataLine, size: usize) -> Option<()> {
         let dls = self.dls.entry(st).or_default();
+        dls.size = u16::try_from(size)
+            .ok()
+            .and_then(|size| dls.size.checked_add(size))?;
         dls.lines.push(line);
-        dls.size += size;
+        Some(())
     }
     fn unknown_defined(&self) -> bool {
         self.dls.contains_key(&SegmentType::Unknown)
@@ -435,9 +438,25 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
     let ProcessState { mut dls, entry, .. } = state;
 
     let mut last_end = PAGE_SIZE;
-    for s in dls.values_mut() {
-        s.start = align_end(last_end, PAGE_SIZE);
-        last_end = s.start + s.size;
+    for (st, s) in dls.iter_mut() {
+        let range = last_end
+            .checked_next_multiple_of(PAGE_SIZE)
+            .and_then(|start| Some((start, start.checked_add(s.size)?)));
+        let Some((start, end)) = range else {
+            add_error_opt(
+                &mut errors,
+                Error::new(
+                    src.clone(),
+                    0,
+                    ErrorType::Other(
+                        format!("segment {st} does not fit in the address space").into_boxed_str(),
+                    ),
+                ),
+            );
+            break;
+        };
+        s.start = start;
+        last_end = end;
     }
 
     let mut labels = Vec::with_capacity(symbols.size());
@@ -517,6 +536,13 @@ fn no_segment(src: &str, ln: u32) -> Error {
         ErrorType::Other("no segment was started".to_string().into_boxed_str()),
     )
 }
+fn segment_full(src: &str, ln: u32) -> Error {
+    Error::new(
+        src,
+        ln,
+        ErrorType::Other("line does not fit in the segment".to_string().into_boxed_str()),
+    )
+}
 fn inner_process<B: BufRead>(
     mut lines: SourceLines<B>,
     state: &mut ProcessState,
@@ -572,22 +598,29 @@ fn inner_process<B: BufRead>(
                 state.add_line(
                     *current_segment,
                     DataLine::Ins(opcode, dat_op),
-                    1 + dat_op.size(),
-                );
+                    1 + dat_op.size() as usize,
+                )
+                .ok_or_else(|| segment_full(src, ln))?;
             }
             SourceLine::DirByte(b) => {
-                state.add_line(*current_segment, DataLine::Raw(vec![b]), 1);
+                state
+                    .add_line(*current_segment, DataLine::Raw(vec![b]), 1)
+                    .ok_or_else(|| segment_full(src, ln))?;
             }
             SourceLine::DirWide(w) => {
                 let wide = match w {
                     Ok(w) => Wide::Number(w),
                     Err(l) => Wide::Label(symbols.get_label(&l, SourceLocation::new(src, ln))),
                 };
-                state.add_line(*current_segment, DataLine::Wide(wide), 2);
+                state
+                    .add_line(*current_segment, DataLine::Wide(wide), 2)
+                    .ok_or_else(|| segment_full(src, ln))?;
             }
             SourceLine::DirString(s) => {
-                let size = s.len() as u16;
-                state.add_line(*current_segment, DataLine::Raw(s), size);
+                let size = s.len();
+                state
+                    .add_line(*current_segment, DataLine::Raw(s), size)
+                    .ok_or_else(|| segment_full(src, ln))?;
             }
             SourceLine::DirInclude(path) => {
                 let pth_buf;
-- 
2.43.0


From 9a6a44a95420866e630791b7f5b656c9537f6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 39/42] fix: the linker reports inputs that exceed the address
 space

---
 src/bin/tl.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 78e8afb..2adbd33 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -8,7 +8,7 @@ use telda2::{
     aalv::{obj::{
         Entry, Object, RelocationEntry, RelocationTable, SegmentType, SymbolDefinition, SymbolTable,
     }, read_archive},
-    align_end, PAGE_SIZE,
+    PAGE_SIZE,
 };
 
 fn one_one(s: &str) -> Result<u16, &'static str> {
@@ -82,6 +82,7 @@ fn main() -> ExitCode {
                 Error::InvalidEntryPointFormat(e) => eprintln!("invalid entry point format: {e}"),
                 Error::NoEntryPoint => eprintln!("No entry point was defined, cannot make executable. Perhaps use -E to set one?"),
                 Error::ReferenceToNonExistantSegment => eprintln!("reference to a segment that was not defined"),
+                Error::TooLarge(st) => eprintln!("segment {st} does not fit in the address space"),
                 Error::ObjectFailure => (),
             }
 
@@ -96,6 +97,7 @@ enum Error {
     ObjectFailure,
     NoEntryPoint,
     ReferenceToNonExistantSegment,
+    TooLarge(SegmentType),
 }
 
 fn tl_main() -> Result<(), Error> {
@@ -132,7 +134,11 @@ fn tl_main() -> Result<(), Error> {
 
         for (_, obj) in &objects {
             for (&stype, &(_start, ref v)) in &obj.segs {
-                *lengths.entry(stype).or_insert(0) += v.len() as u16;
+                let length = lengths.entry(stype).or_insert(0u16);
+                *length = u16::try_from(v.len())
+                    .ok()
+                    .and_then(|size| length.checked_add(size))
+                    .ok_or(Error::TooLarge(stype))?;
             }
         }
         let mut last_end = 0;
@@ -143,9 +149,11 @@ fn tl_main() -> Result<(), Error> {
         last_end = last_end.max(PAGE_SIZE);
 
         for (st, size) in lengths {
-            let start = align_end(last_end, segment_alignment);
+            let start = last_end
+                .checked_next_multiple_of(segment_alignment)
+                .ok_or(Error::TooLarge(st))?;
             segs_out.insert(st, (start, Vec::with_capacity(size as usize)));
-            last_end = start + size;
+            last_end = start.checked_add(size).ok_or(Error::TooLarge(st))?;
 
             if verbose {
                 println!("segment {st} @ 0x{start:04x} w/ {} bytes (0x{0:02x})", size);
-- 
2.43.0


From 5fe6946d65e8260eccac0d496eb825c052749394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 40/42] fix: refuse raw images that are larger than the ROM
 instead of panicking

---
 src/bin/t.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bin/t.rs b/src/bin/t.rs
index 3dd47f0..1a12a4e 100644
--- a/src/bin/t.rs
+++ b/src/bin/t.rs
@@ -11,7 +11,7 @@ use telda2::{
     aalv::obj::{Object, SegmentType, SymbolDefinition, SymbolTable},
     blf4::{Blf4, TrapMode},
     machine::Machine,
-    mem::{LazyMain, StdIo},
+    mem::{LazyMain, StdIo, ROM_SIZE},
 };
 
 #[derive(Parser)]
@@ -38,6 +38,7 @@ enum Error {
     NoEntry,
     Trap(TrapMode),
     IoError(io::Error),
+    RawTooLarge,
 }
 
 pub fn main() -> ExitCode {
@@ -48,6 +49,7 @@ pub fn main() -> ExitCode {
                 Error::NoEntry => eprintln!("no entry point in binary"),
                 Error::Trap(tm) => eprintln!("trapped with {tm:?}"),
                 Error::IoError(e) => eprintln!("unexpected io error occured: {e}"),
+                Error::RawTooLarge => eprintln!("raw binary is larger than the ROM ({ROM_SIZE} bytes)"),
             }
             ExitCode::FAILURE
         }
@@ -70,6 +72,10 @@ fn t_main() -> Result<(), Error> {
         file.read_to_end(&mut raw_binary_data)
             .map_err(Error::IoError)?;
 
+        if raw_binary_data.len() > ROM_SIZE {
+            return Err(Error::RawTooLarge);
+        }
+
         machine.memory = machine.memory.with_rom(&raw_binary_data);
     } else {
         let mut obj = Object::from_file(binary).map_err(Error::IoError)?;
-- 
2.43.0


From e0e43a51b07791999ab11edb835027626f949561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 41/42] fix: the debugger takes any bytes as input

---
 src/bin/tdbg.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 951721f..bd5fbf6 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -1,6 +1,6 @@
 use std::{
     collections::{HashMap, VecDeque},
-    io::{stdin, stdout, Write},
+    io::{stdin, stdout, BufRead, Write},
     path::PathBuf,
     process::ExitCode,
 };
@@ -50,8 +50,9 @@ impl Io for DbgIo {
         if self.in_buf.is_empty() {
             print!("STDIN requested: ");
             stdout().flush().expect("stdin failed");
-            let mut buf = String::new();
-            if std::io::stdin().read_line(&mut buf).expect("stdin failed") == 0 {
+            let mut buf = Vec::new();
+            let read_n = stdin().lock().read_until(b'\n', &mut buf);
+            if read_n.expect("stdin failed") == 0 {
                 println!();
                 // show unfinished line
                 if !self.out_buf.is_empty() {
@@ -60,7 +61,7 @@ impl Io for DbgIo {
                 eprintln!("end of input");
                 std::process::exit(1);
             }
-            self.in_buf.extend(buf.into_bytes());
+            self.in_buf.extend(buf);
         }
         self.in_buf
             .pop_front()
@@ -167,7 +168,7 @@ fn main() -> ExitCode {
 
 fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap<u16, Box<str>>) {
     let stdin = stdin();
-    let mut input = String::new();
+    let mut input = Vec::new();
     let mut target_nesting = 0;
     let mut current_nesting = 0;
 
@@ -216,13 +217,14 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
             stdout().flush().expect("stdout failed");
 
             input.clear();
-            if stdin.read_line(&mut input).expect("stdin failed") == 0 {
+            let read_n = stdin.lock().read_until(b'\n', &mut input);
+            if read_n.expect("stdin failed") == 0 {
                 // end of input
                 println!();
                 break 'disassemble_loop;
             }
 
-            match input.trim() {
+            match String::from_utf8_lossy(&input).trim() {
                 "q" | "quit" => break 'disassemble_loop,
                 "n" | "next" => {
                     break current_nesting;
-- 
2.43.0


From f8b51b26aafa3313761cbe4ec5b19e28a2ebda45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 42/42] fix: accept file names that are not UTF-8

---
 src/bin/tc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tc.rs b/src/bin/tc.rs
index 1e2e311..cedfe17 100644
--- a/src/bin/tc.rs
+++ b/src/bin/tc.rs
@@ -1,4 +1,4 @@
-use std::{collections::BTreeMap, env::args, path::Path, process::ExitCode};
+use std::{collections::BTreeMap, env::args_os, path::Path, process::ExitCode};
 
 use telda2::{
     aalv::obj::{
@@ -13,7 +13,7 @@ use telda2::{
 
 fn main() -> ExitCode {
     let mut ret = ExitCode::SUCCESS;
-    for arg in args().skip(1) {
+    for arg in args_os().skip(1) {
         let p = Path::new(&arg);
         let ProcessedSource { labels, dls, entry } = match SourceLines::new(p).and_then(process) {
             Ok(s) => s,
-- 
2.43.0

