From 717cc22cb87e8344f4d4af99e56b828c7032ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 01/55] fix: take shift counts modulo the operand width instead
 of panicking

A shift count of 8 (16 for wides) or more overflowed the Rust shift, so a
guest program could abort the emulator in builds with overflow checks.
---
 src/blf4/isa/handlers.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index d062c2a..4f30367 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -270,37 +270,45 @@ fn xor_w(c: &mut HandlerContext) -> OpRes {
     binop_w(c, |x, y| (x ^ y, false), |x, y| (x ^ y, false))
 }
 fn shl_b(c: &mut HandlerContext) -> OpRes {
-    binop_b(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_b(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn shl_w(c: &mut HandlerContext) -> OpRes {
-    binop_w(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_w(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn asr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (((x as i8) >> y) as u8, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i8).wrapping_shr(y as u32) as u8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn asr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (((x as i16) >> y) as u16, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i16).wrapping_shr(y as u32) as u16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn lsr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u8) >> y) as i8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u8).wrapping_shr(y as u32) as i8, false),
     )
 }
 fn lsr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u16) >> y) as i16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u16).wrapping_shr(y as u32) as i16, false),
     )
 }
 fn mul_b(c: &mut HandlerContext) -> OpRes {
-- 
2.43.0


From 9e45f293cd2523a3cf9645c83ad31476ab501f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 02/55] fix: wrap 16-bit guest address arithmetic instead of
 panicking

The program counter, stack pointer, base + offset addresses and the second
byte of a wide access are 16-bit and wrap (negative offsets rely on it), but
with overflow checks on they aborted the emulator.
---
 src/blf4/isa/handlers.rs | 18 +++++++++---------
 src/blf4/mod.rs          | 14 +++++++-------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index 4f30367..5d36592 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -436,7 +436,7 @@ fn call(c: &mut HandlerContext) -> OpRes {
 }
 fn ret(c: &mut HandlerContext) -> OpRes {
     let b = arg_imm_byte(c)?;
-    c.cpu.stack += b as u16;
+    c.cpu.stack = c.cpu.stack.wrapping_add(b as u16);
     c.cpu.program_counter = c.cpu.link;
 
     Ok(())
@@ -445,7 +445,7 @@ fn store_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Br)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r2))?;
 
     Ok(())
@@ -458,7 +458,7 @@ fn store_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r3))?;
 
     Ok(())
@@ -467,7 +467,7 @@ fn store_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r2)?)?;
 
     Ok(())
@@ -480,7 +480,7 @@ fn store_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r3)?)?;
 
     Ok(())
@@ -489,7 +489,7 @@ fn load_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Br, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -503,7 +503,7 @@ fn load_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -513,7 +513,7 @@ fn load_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
@@ -527,7 +527,7 @@ fn load_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 2311c6c..eef794e 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -473,7 +473,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn fetch(&mut self) -> OpRes<u8> {
         let addr = self.cpu.program_counter;
-        self.cpu.program_counter += 1;
+        self.cpu.program_counter = addr.wrapping_add(1);
         let addr = self.addr_resolve(addr, AccessMode::Execute)?;
         Ok(self.mem.read(addr))
     }
@@ -491,7 +491,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn read_wide(&mut self, addr: u16) -> OpRes<u16> {
         let lower = self.read(addr)?;
-        let higher = self.read(addr + 1)?;
+        let higher = self.read(addr.wrapping_add(1))?;
 
         Ok(u16::from_le_bytes([lower, higher]))
     }
@@ -500,7 +500,7 @@ impl HandlerContext<'_> {
         let [lower, higher] = val.to_le_bytes();
 
         self.write(addr, lower)?;
-        self.write(addr + 1, higher)?;
+        self.write(addr.wrapping_add(1), higher)?;
 
         Ok(())
     }
@@ -515,24 +515,24 @@ impl HandlerContext<'_> {
 
     #[must_use = "error must be handled"]
     pub fn pushw(&mut self, w: u16) -> OpRes<()> {
-        self.cpu.stack -= 2;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(2);
         self.write_wide(self.cpu.stack, w)
     }
     #[must_use = "error must be handled"]
     pub fn pushb(&mut self, b: u8) -> OpRes<()> {
-        self.cpu.stack -= 1;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(1);
         self.write(self.cpu.stack, b)
     }
     #[must_use = "error must be handled"]
     pub fn popw(&mut self) -> OpRes<u16> {
         let w = self.read_wide(self.cpu.stack)?;
-        self.cpu.stack += 2;
+        self.cpu.stack = self.cpu.stack.wrapping_add(2);
         Ok(w)
     }
     #[must_use = "error must be handled"]
     pub fn popb(&mut self) -> OpRes<u8> {
         let b = self.read(self.cpu.stack)?;
-        self.cpu.stack += 1;
+        self.cpu.stack = self.cpu.stack.wrapping_add(1);
         Ok(b)
     }
     #[must_use = "error must be handled"]
-- 
2.43.0


From 550e4a83151168f3a2178862ddd0388385b91837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 03/55] fix: mark the entry that was not dirty, not always the
 level-1 entry

When the level-1 entry was already dirty, the level-2 entry's flag byte was
written over the level-1 entry: the level-2 entry never became dirty and the
level-1 entry took over the page's permissions (e.g. lost X).
---
 src/blf4/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index eef794e..29b503f 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -374,14 +374,15 @@ impl HandlerContext<'_> {
 
         // set dirty bit to any entry that isn't marked as dirty, if the access mode is write
         if matches!(mode, AccessMode::Write) {
-            let dirty_iter = [lvl1_entry_addr, lvl2_entry_addr].into_iter().zip(
-                lvl1_entry
-                    .byte_with_dirty_flag
-                    .into_iter()
-                    .chain(lvl2_entry.byte_with_dirty_flag),
-            );
-
-            for (addr, undirty_byte) in dirty_iter {
+            let undirty_bytes = [
+                (lvl1_entry_addr, lvl1_entry.byte_with_dirty_flag),
+                (lvl2_entry_addr, lvl2_entry.byte_with_dirty_flag),
+            ];
+
+            for (addr, undirty_byte) in undirty_bytes {
+                let Some(undirty_byte) = undirty_byte else {
+                    continue;
+                };
                 // set dirty flag
                 let new_dirty_byte = undirty_byte | 0b0001_0000;
                 // convert to byte because the dirty flag is in the first byte
-- 
2.43.0


From 2ea64a8c16128d910136c82056c5e9b5893e57a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 04/55] fix: deliver traps raised while fetching an opcode to
 the trap handler

Page faults and illegal execution on the first byte of an instruction ended
the machine even with a handler installed.
---
 src/blf4/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 29b503f..8894cd7 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -234,9 +234,12 @@ impl Cpu for Blf4 {
     fn execute_instruction<M: MainMemory>(&mut self, mem: &mut M) -> OpRes<(), Self::TrapMode> {
         let mut ctx = HandlerContext { cpu: self, mem };
 
-        let opcode = ctx.fetch()?;
+        let res = match ctx.fetch() {
+            Ok(opcode) => OP_HANDLERS[opcode as usize](&mut ctx),
+            Err(tm) => Err(tm),
+        };
 
-        match OP_HANDLERS[opcode as usize](&mut ctx) {
+        match res {
             Ok(()) => (),
             Err(tm) => {
                 ctx.cpu.flags.trap = true;
-- 
2.43.0


From 88ff272ef63aa2186c5a411c4ec899f00ab3f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 05/55] fix: save the flags as they were before the trap

The user mode and trap flags were changed before the flags were pushed, so
reth resumed an interrupted user program in supervisor mode.
---
 src/blf4/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 8894cd7..38d9bd7 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -242,12 +242,13 @@ impl Cpu for Blf4 {
         match res {
             Ok(()) => (),
             Err(tm) => {
+                let interrupted_flags = ctx.cpu.flags;
                 ctx.cpu.flags.trap = true;
                 ctx.cpu.flags.user_mode = false;
                 if ctx.cpu.trap_handler == 0 {
                     return Err(tm);
                 } else {
-                    ctx.push_registers()?;
+                    ctx.push_registers(interrupted_flags)?;
                     self.program_counter = self.trap_handler;
                     self.write_wr(R1, tm as u8 as u16)?;
                 }
@@ -540,8 +541,8 @@ impl HandlerContext<'_> {
         Ok(b)
     }
     #[must_use = "error must be handled"]
-    pub fn push_registers(&mut self) -> OpRes<()> {
-        self.pushw(self.cpu.flags.into())?;
+    pub fn push_registers(&mut self, flags: Blf4Flags) -> OpRes<()> {
+        self.pushw(flags.into())?;
         for r in 1..=15 {
             let w = self.cpu.read_wr(WideRegister(U4::new(r)))?;
             self.pushw(w)?;
-- 
2.43.0


From 26103390ae41d0cf8caa203985b94d06bb72496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 06/55] fix: save and restore the program counter across a trap

It was neither pushed nor popped, so reth could not return to the
interrupted program and ran on behind itself.
---
 src/blf4/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 38d9bd7..47a3e1e 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -542,6 +542,7 @@ impl HandlerContext<'_> {
     }
     #[must_use = "error must be handled"]
     pub fn push_registers(&mut self, flags: Blf4Flags) -> OpRes<()> {
+        self.pushw(self.cpu.program_counter)?;
         self.pushw(flags.into())?;
         for r in 1..=15 {
             let w = self.cpu.read_wr(WideRegister(U4::new(r)))?;
@@ -556,7 +557,9 @@ impl HandlerContext<'_> {
             let w = self.popw()?;
             self.cpu.write_wr(WideRegister(U4::new(r)), w)?;
         }
-        self.cpu.flags = self.popw()?.into();
+        let flags = self.popw()?.into();
+        self.cpu.program_counter = self.popw()?;
+        self.cpu.flags = flags;
 
         Ok(())
     }
-- 
2.43.0


From 49b1bc39e06860c005e238d41ac90e8e610cf928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 07/55] fix: jle jumps if the result is less or equal, not only
 if both flags say so

---
 README.md                | 2 +-
 src/blf4/isa/handlers.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 9929999..fbbc1f5 100644
--- a/README.md
+++ b/README.md
@@ -212,7 +212,7 @@ load br1, wr2, wr3     | 2d     | Load byte into br1 from location in memory [wr
 load wr1, wr2, wr3     | 2e     | Load wide into wr1 from location in memory [wr2 + wr3] (in little-endian format)
 jez w                  | 2f     | Conditional jump to w if zero flag is set
 jlt w                  | 30     | Conditional jump to w if sign flag is not equal to overflow flag
-jle w                  | 31     | Conditional jump to w if sign flag is not equal to overflow flag AND zero flag is set
+jle w                  | 31     | Conditional jump to w if sign flag is not equal to overflow flag OR zero flag is set
 jgt w                  | 32     | Conditional jump to w if sign flag is equal to overflow flag and zero flag is not set
 jge w                  | 33     | Conditional jump to w if sign flag is equal to overflow flag
 jnz w                  | 34     | Conditional jump to w if zero flag is not set
diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index 5d36592..df57e4e 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -542,7 +542,7 @@ fn jlt(c: &mut HandlerContext) -> OpRes {
 }
 fn jle(c: &mut HandlerContext) -> OpRes {
     jif(
-        c.cpu.flags.sign != c.cpu.flags.overflow && c.cpu.flags.zero,
+        c.cpu.flags.sign != c.cpu.flags.overflow || c.cpu.flags.zero,
         c,
     )
 }
-- 
2.43.0


From e887a23295d1170052dda419c93db18a31f4c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 08/55] fix: pad ROM images that are smaller than the ROM with
 zeroes

---
 src/mem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.rs b/src/mem.rs
index e0626a4..c984f7b 100644
--- a/src/mem.rs
+++ b/src/mem.rs
@@ -83,7 +83,7 @@ impl<P> LazyMain<P> {
     }
     pub fn with_rom(mut self, bytes: &[u8]) -> Self {
         assert!(bytes.len() <= ROM_SIZE, "bytes cannot be bigger than ROM");
-        self.rom = Some(std::array::from_fn(|i| bytes[i]));
+        self.rom = Some(std::array::from_fn(|i| bytes.get(i).copied().unwrap_or(0)));
         self
     }
 }
-- 
2.43.0


From ab30ca1bae04fb890eeca6a6e8abf7651ec2a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 09/55] fix: give the stack size its own section name

---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 09ae058..a3cc3aa 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -85,7 +85,7 @@ impl Section for BinarySegment {
     }
 }
 impl Section for StackSize {
-    const NAME: &'static str = "_heap_size";
+    const NAME: &'static str = "_stack_size";
     fn read<R: Read>(mut reader: R) -> io::Result<Self> {
         let mut buf = [0; 2];
         reader.read_exact(&mut buf)?;
-- 
2.43.0


From 2a288dd35434dac20ff8b303475db365e0c9bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 10/55] fix: find the object magic when bytes before it look
 like its start

---
 src/aalv/mod.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 8db48e2..7851ba8 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -77,21 +77,15 @@ impl<F: BufRead + Seek> AalvReader<F> {
     }
 
     fn read_magic(&mut self) -> Result<()> {
-        // Find magic
-        loop {
-            let first_magic_byte = AALV_MAGIC.as_bytes()[0];
-            let mut magic_buf = [0; AALV_MAGIC.len()];
-
-            while first_magic_byte != magic_buf[0] {
-                self.file.read_exact(&mut magic_buf[..1])?;
-            }
-            self.file_offset = self.file.stream_position()? - 1;
+        // Find magic, which may start anywhere
+        let mut magic_buf = [0; AALV_MAGIC.len()];
+        self.file.read_exact(&mut magic_buf)?;
 
-            self.file.read_exact(&mut magic_buf[1..])?;
-            if magic_buf == AALV_MAGIC.as_bytes() {
-                break;
-            }
+        while magic_buf != AALV_MAGIC.as_bytes() {
+            magic_buf.rotate_left(1);
+            self.file.read_exact(&mut magic_buf[AALV_MAGIC.len() - 1..])?;
         }
+        self.file_offset = self.file.stream_position()? - AALV_MAGIC.len() as u64;
 
         Ok(())
     }
-- 
2.43.0


From ba083bf176c4aeed5f579fbaf028dbd58f947d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 11/55] fix: refuse to write a section that is too large for
 its size field

---
 src/aalv/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 7851ba8..864bbd4 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -202,8 +202,15 @@ impl<F: Write + Seek> AalvWriter<F> {
         segment.write(&mut w)?;
         let CountedWriter { writer: _, length } = w;
 
+        let section_size = u16::try_from(length).map_err(|_| {
+            io::Error::new(
+                ErrorKind::InvalidInput,
+                format!("section {} is too large", S::NAME),
+            )
+        })?;
+
         self.file.seek(SeekFrom::Current(-(length as i64) - 2))?;
-        self.file.write_all(&(length as u16).to_le_bytes())?;
+        self.file.write_all(&section_size.to_le_bytes())?;
         self.file.seek(SeekFrom::Current(length as i64))?;
 
         Ok(())
-- 
2.43.0


From 16f28ee147c3b47ed45e82b04472a5fdcfb87d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 12/55] fix: report unnamed symbols and unexpected sections
 instead of panicking

---
 src/aalv/obj.rs          | 5 ++++-
 src/aalv/obj/sec_impl.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index abc0a71..ee23501 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -60,7 +60,10 @@ impl Object {
         };
 
         if aalvur.remaing_sections().any(|s| s.starts_with('_')) {
-            unimplemented!("error unexpected sections")
+            Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "unexpected sections",
+            ))
         } else {
             Ok(obj)
         }
diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index a3cc3aa..7efa1b7 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -118,7 +118,7 @@ impl Section for SymbolTable {
 
             let segment_type = segment_type_from_u8(stype)?;
 
-            let is_global = namebuf[0] != b' ';
+            let is_global = namebuf.first() != Some(&b' ');
             let name = if is_global {
                 String::from_utf8_lossy(&namebuf).into()
             } else {
-- 
2.43.0


From cc6ea5aee53567a64124c26af9a945640e6df801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 13/55] fix: report failure to write the end of an object

---
 src/aalv/mod.rs | 25 +++++++++++++++++++++----
 src/aalv/obj.rs |  2 +-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 864bbd4..f18f40f 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -170,11 +170,15 @@ impl<R: Read> Read for ReadWindow<R> {
 
 pub struct AalvWriter<F: Write> {
     file: F,
+    finished: bool,
 }
 
 impl<F: Write + Seek> AalvWriter<F> {
     pub fn new(file: F, file_offset: u64) -> Result<Self> {
-        let mut new = AalvWriter { file };
+        let mut new = AalvWriter {
+            file,
+            finished: false,
+        };
 
         new.file.seek(SeekFrom::Start(file_offset))?;
         new.write_magic()?;
@@ -217,11 +221,24 @@ impl<F: Write + Seek> AalvWriter<F> {
     }
 }
 
+impl<F: Write> AalvWriter<F> {
+    /// Writes the final zero byte and makes sure everything has been written
+    pub fn finish(mut self) -> Result<()> {
+        self.finish_mut()
+    }
+    fn finish_mut(&mut self) -> Result<()> {
+        self.finished = true;
+        self.file.write_all(&[0])?;
+        self.file.flush()
+    }
+}
+
 impl<F: Write> Drop for AalvWriter<F> {
     fn drop(&mut self) {
-        self.file
-            .write_all(&[0])
-            .expect("writing of final álvur zero byte failed");
+        if !self.finished {
+            // errors can only be noticed by using `finish`
+            let _ = self.finish_mut();
+        }
     }
 }
 
diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index ee23501..c33352f 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -121,7 +121,7 @@ impl Object {
             aalvur.write_section(relocation_table)?;
         }
 
-        Ok(())
+        aalvur.finish()
     }
 
     #[deprecated = "Load segmented instead"]
-- 
2.43.0


From 8603f19da68c0edd9603465c228981486b724ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 14/55] fix: add the segment start only once to relocations of
 .wide labels

---
 src/bin/tc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tc.rs b/src/bin/tc.rs
index 3abde82..05de86b 100644
--- a/src/bin/tc.rs
+++ b/src/bin/tc.rs
@@ -34,7 +34,7 @@ fn main() -> ExitCode {
             lines.push(dls.lines);
         }
 
-        for ((&st, &mut (segment_start, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
+        for ((&st, &mut (_start, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
             for data_line in lines {
                 match data_line {
                     DataLine::Raw(mut bytes) => {
@@ -44,7 +44,7 @@ fn main() -> ExitCode {
                     DataLine::Wide(Wide::Label(id)) => {
                         let lr = LabelRead {
                             segment: st,
-                            position: mem.len() as u16 + segment_start,
+                            position: mem.len() as u16,
                         };
                         label_reads[id].push(lr);
                         let w = labels[id].3;
-- 
2.43.0


From 7eb49b54b164115e6809a3b612d9d4a6f7081752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 15/55] fix: reject unfinished and signed hexadecimal escapes

---
 src/source/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index f3a368d..06c1c48 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -315,11 +315,17 @@ fn parse_bytechar(s: &[u8]) -> StdResult<(u8, &[u8]), ErrorType> {
             b'\\' => (b'\\', &s[2..]),
             b'\'' => (b'\'', &s[2..]),
             b'\"' => (b'\"', &s[2..]),
-            b'x' => (
-                u8::from_str_radix(String::from_utf8_lossy(&s[2..4]).as_ref(), 16)
-                    .map_err(|_| InvalidEscapeSequence)?,
-                &s[4..],
-            ),
+            b'x' => {
+                let digits = s.get(2..4).ok_or(InvalidEscapeSequence)?;
+                if !digits.iter().all(u8::is_ascii_hexdigit) {
+                    return Err(InvalidEscapeSequence);
+                }
+                (
+                    u8::from_str_radix(String::from_utf8_lossy(digits).as_ref(), 16)
+                        .map_err(|_| InvalidEscapeSequence)?,
+                    &s[4..],
+                )
+            }
             c => return Err(InvalidEscapeCharacter(*c)),
         },
         &c => (c, &s[1..]),
-- 
2.43.0


From af44fed64b28abe56e49cd4b333e6b33758b5b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 16/55] fix: reject surplus operands of every instruction

---
 src/source/mod.rs | 60 +++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 06c1c48..28263bf 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -969,10 +969,12 @@ impl DataOperand {
     fn parse_byte_imm<'a>(mut ops: impl Iterator<Item = &'a SourceOperand>) -> Option<DataOperand> {
         let reg1 = ops.next()?;
         let imm = ops.next()?;
-        Some(DataOperand::ByteImm(
+        let ret = Some(DataOperand::ByteImm(
             Self::byte(reg1)?,
             Self::imm_byte(imm)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
@@ -981,10 +983,12 @@ impl DataOperand {
     ) -> Option<DataOperand> {
         let reg1 = ops.next()?;
         let imm = ops.next()?;
-        Some(DataOperand::WideImm(
+        let ret = Some(DataOperand::WideImm(
             Self::wide(reg1)?,
             Self::imm_wide(imm, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_three_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
@@ -992,11 +996,13 @@ impl DataOperand {
         let reg1 = ops.next()?;
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
-        Some(DataOperand::ThreeByte(
+        let ret = Some(DataOperand::ThreeByte(
             Self::byte(reg1)?,
             Self::byte(reg2)?,
             Self::byte(reg3)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_three_wide<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
@@ -1004,11 +1010,13 @@ impl DataOperand {
         let reg1 = ops.next()?;
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
-        Some(DataOperand::ThreeWide(
+        let ret = Some(DataOperand::ThreeWide(
             Self::wide(reg1)?,
             Self::wide(reg2)?,
             Self::wide(reg3)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_wide_imm_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
@@ -1018,7 +1026,9 @@ impl DataOperand {
         let reg1 = Self::wide(ops.next()?)?;
         let imm = Self::imm_wide(ops.next()?, sym, sl)?;
         let reg2 = Self::byte(ops.next()?)?;
-        Some(DataOperand::WideImmByte(reg1, imm, reg2))
+        let ret = Some(DataOperand::WideImmByte(reg1, imm, reg2));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_wide_imm_wide<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
@@ -1028,47 +1038,57 @@ impl DataOperand {
         let reg1 = Self::wide(ops.next()?)?;
         let imm = Self::imm_wide(ops.next()?, sym, sl)?;
         let reg2 = Self::wide(ops.next()?)?;
-        Some(DataOperand::WideImmWide(reg1, imm, reg2))
+        let ret = Some(DataOperand::WideImmWide(reg1, imm, reg2));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_two_wide_one_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-        Some(DataOperand::TwoWideOneByte(
+        let ret = Some(DataOperand::TwoWideOneByte(
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::byte(ops.next()?)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_byte_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
         sym: &mut Symbols,
         sl: SourceLocation,
     ) -> Option<DataOperand> {
-        Some(DataOperand::ByteWideImm(
+        let ret = Some(DataOperand::ByteWideImm(
             Self::byte(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::imm_wide(ops.next()?, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_two_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
         sym: &mut Symbols,
         sl: SourceLocation,
     ) -> Option<DataOperand> {
-        Some(DataOperand::TwoWideImm(
+        let ret = Some(DataOperand::TwoWideImm(
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::imm_wide(ops.next()?, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_byte_two_wide<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-        Some(DataOperand::ByteTwoWide(
+        let ret = Some(DataOperand::ByteTwoWide(
             Self::byte(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_four_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
@@ -1077,7 +1097,7 @@ impl DataOperand {
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
         let reg4 = ops.next()?;
-        Self::parse_nothing(ops);
+        Self::parse_nothing(ops)?;
         Some(DataOperand::FourByte(
             Self::byte(reg1)?,
             Self::byte(reg2)?,
@@ -1092,7 +1112,7 @@ impl DataOperand {
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
         let reg4 = ops.next()?;
-        Self::parse_nothing(ops);
+        Self::parse_nothing(ops)?;
         Some(DataOperand::FourWide(
             Self::wide(reg1)?,
             Self::wide(reg2)?,
-- 
2.43.0


From 0a913133a79c40eb85eb96c7fd0b3bc167d505f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 17/55] fix: do not overflow when aligning an aligned address
 on the last page

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d949a8d..4a1b64e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,13 +18,12 @@ pub const fn align_start(addr: u16, alignment: u16) -> u16 {
 }
 pub const fn align_end(addr: u16, alignment: u16) -> u16 {
     let mask = alignment - 1;
-    let next_aligned = (addr + alignment) & !mask;
 
     // If the current end is already aligned, do nothing
     if addr & mask == 0 {
         addr
     } else {
-        next_aligned
+        (addr & !mask) + alignment
     }
 }
 
-- 
2.43.0


From a2f1de6c2c1a41033e3ade73173387f64fec3242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 18/55] fix: report sources that do not fit a segment or the
 address space

---
 src/source/mod.rs | 56 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 28263bf..ccd9996 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -9,9 +9,8 @@ use std::{
 use crate::{
     aalv::obj::Entry,
     aalv::obj::SegmentType,
-    align_end,
     blf4::{ByteRegister as BReg, WideRegister as WReg, *},
-    PAGE_SIZE, U4,
+    PAGE_SIZE_P, U4,
 };
 
 mod err;
@@ -382,10 +381,21 @@ impl ProcessState {
     fn get_size(&self, st: SegmentType) -> u16 {
         self.dls.get(&st).map(|dls| dls.size).unwrap_or(0)
     }
-    fn add_line(&mut self, st: SegmentType, line: DataLine, size: u16) {
+    fn add_line(
+        &mut self,
+        st: SegmentType,
+        line: DataLine,
+        size: usize,
+    ) -> StdResult<(), ErrorType> {
+        let Ok(new_size) = u16::try_from(self.get_size(st) as usize + size) else {
+            return Err(ErrorType::Other(
+                format!("segment {st} is too large").into_boxed_str(),
+            ));
+        };
         let dls = self.dls.entry(st).or_default();
         dls.lines.push(line);
-        dls.size += size;
+        dls.size = new_size;
+        Ok(())
     }
     fn unknown_defined(&self) -> bool {
         self.dls.contains_key(&SegmentType::Unknown)
@@ -402,10 +412,21 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
 
     let ProcessState { mut dls, entry } = state;
 
-    let mut last_end = PAGE_SIZE;
+    let mut last_end = PAGE_SIZE_P;
     for s in dls.values_mut() {
-        s.start = align_end(last_end, PAGE_SIZE);
-        last_end = s.start + s.size;
+        let start = last_end.next_multiple_of(PAGE_SIZE_P);
+        s.start = start as u16;
+        last_end = start + s.size as u32;
+    }
+    if last_end > u16::MAX as u32 {
+        add_error_opt(
+            &mut errors,
+            Error::new(
+                src.clone(),
+                0,
+                ErrorType::Other("segments do not fit in the address space".into()),
+            ),
+        );
     }
 
     let mut labels = Vec::with_capacity(symbols.size());
@@ -438,7 +459,7 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
 
                 let stype = addr.0;
                 let offset = dls.get(&stype).map(|dl| dl.start).unwrap_or(0);
-                let pos = addr.1 + offset;
+                let pos = addr.1.wrapping_add(offset);
 
                 element = (l, st, stype, pos)
             }
@@ -472,7 +493,7 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
     } else {
         let entry = entry.map(|addr| {
             let offset = dls.get(&addr.0).map(|dl| dl.start).unwrap_or(0);
-            Entry(addr.0, addr.1 + offset)
+            Entry(addr.0, addr.1.wrapping_add(offset))
         });
 
         Ok(ProcessedSource { labels, dls, entry })
@@ -527,22 +548,27 @@ fn inner_process<B: BufRead>(
                 state.add_line(
                     *current_segment,
                     DataLine::Ins(opcode, dat_op),
-                    1 + dat_op.size(),
-                );
+                    1 + dat_op.size() as usize,
+                )
+                .map_err(|et| Error::new(src, ln, et))?;
             }
             SourceLine::DirByte(b) => {
-                state.add_line(*current_segment, DataLine::Raw(vec![b]), 1);
+                state.add_line(*current_segment, DataLine::Raw(vec![b]), 1)
+                    .map_err(|et| Error::new(src, ln, et))?;
             }
             SourceLine::DirWide(w) => {
                 let wide = match w {
                     Ok(w) => Wide::Number(w),
                     Err(l) => Wide::Label(symbols.get_label(&l, SourceLocation::new(src, ln))),
                 };
-                state.add_line(*current_segment, DataLine::Wide(wide), 2);
+                state.add_line(*current_segment, DataLine::Wide(wide), 2)
+                    .map_err(|et| Error::new(src, ln, et))?;
             }
             SourceLine::DirString(s) => {
-                let size = s.len() as u16;
-                state.add_line(*current_segment, DataLine::Raw(s), size);
+                let size = s.len();
+                state
+                    .add_line(*current_segment, DataLine::Raw(s), size)
+                    .map_err(|et| Error::new(src, ln, et))?;
             }
             SourceLine::DirInclude(path) => {
                 let pth_buf;
-- 
2.43.0


From 0566c66114b7d6b0a73b747bd14697bba916be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 19/55] fix: report exactly the lines that need a segment when
 none was started

---
 src/source/mod.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index ccd9996..648c85c 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -397,9 +397,6 @@ impl ProcessState {
         dls.size = new_size;
         Ok(())
     }
-    fn unknown_defined(&self) -> bool {
-        self.dls.contains_key(&SegmentType::Unknown)
-    }
 }
 
 pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
@@ -512,6 +509,31 @@ fn inner_process<B: BufRead>(
         state: &mut ProcessState,
         symbols: &mut Symbols,
     ) -> Result<()> {
+        let needs_segment = matches!(
+            line,
+            SourceLine::Label(_)
+                | SourceLine::Ins(..)
+                | SourceLine::DirString(_)
+                | SourceLine::DirByte(_)
+                | SourceLine::DirWide(_)
+                | SourceLine::DirEntry
+        );
+        if needs_segment && *current_segment == SegmentType::Unknown {
+            // Label might be used, only report that it is in no segment
+            if let SourceLine::Label(s) = &line {
+                symbols.set_label(
+                    s,
+                    Address(SegmentType::Unknown, 0),
+                    SourceLocation::new(src, ln),
+                )?;
+            }
+            return Err(Error::new(
+                src,
+                ln,
+                ErrorType::Other("no segment was started".to_string().into_boxed_str()),
+            ));
+        }
+
         match line {
             SourceLine::DirSeg(seg) => {
                 let new_seg = match &*seg {
@@ -596,14 +618,6 @@ fn inner_process<B: BufRead>(
             SourceLine::Comment => (),
         }
 
-        if state.unknown_defined() {
-            return Err(Error::new(
-                src,
-                ln,
-                ErrorType::Other("no segment was started".to_string().into_boxed_str()),
-            ));
-        }
-
         Ok(())
     }
 
-- 
2.43.0


From 0eca4256bdbbbd0b2f300df61f96c1c1c0d5fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 20/55] fix: stop assembling a file that cannot be read and
 name the line that is not text

---
 src/source/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 648c85c..3f280b9 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::BTreeMap,
     fs::File,
-    io::{BufRead, BufReader, Lines},
+    io::{BufRead, BufReader, ErrorKind, Lines},
     path::Path,
     slice::Iter,
 };
@@ -141,6 +141,23 @@ impl<B: BufRead> SourceLines<B> {
         loop {
             let line = self.lines.next()?;
             self.ln += 1;
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    // Only reading a line that isn't text leaves the reader at the next line
+                    let can_continue = e.kind() == ErrorKind::InvalidData;
+                    self.add_error(Error::new(
+                        self.source.clone(),
+                        self.ln,
+                        ErrorType::IoError(e),
+                    ));
+                    if can_continue {
+                        continue;
+                    } else {
+                        return None;
+                    }
+                }
+            };
             match self.inner_parse_line(line) {
                 Ok(sl) => break Some((self.ln, sl)),
                 Err(e) => {
@@ -149,9 +166,8 @@ impl<B: BufRead> SourceLines<B> {
             }
         }
     }
-    fn inner_parse_line(&mut self, line: StdResult<String, IoError>) -> Result<SourceLine> {
+    fn inner_parse_line(&mut self, line: String) -> Result<SourceLine> {
         Ok({
-            let line = line?;
             let line = line.trim();
 
             if line.is_empty()
-- 
2.43.0


From 9c9a6997c54203f83c5739371385326778558bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 21/55] fix: ignore additional spaces before directive
 arguments

---
 src/source/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 3f280b9..165db47 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -196,7 +196,7 @@ impl<B: BufRead> SourceLines<B> {
                     }),
                     "byte" => {
                         let b;
-                        match parse_number(arg)
+                        match parse_number(arg.trim())
                             .map_err(|et| Error::new(self.source.clone(), self.ln, et))?
                         {
                             SourceOperand::Byte(n) => b = n,
@@ -223,7 +223,7 @@ impl<B: BufRead> SourceLines<B> {
                     }
                     "wide" | "word" => {
                         let w;
-                        match parse_number(arg)
+                        match parse_number(arg.trim())
                             .map_err(|et| Error::new(self.source.clone(), self.ln, et))?
                         {
                             SourceOperand::Wide(n) => w = Ok(n),
@@ -249,10 +249,10 @@ impl<B: BufRead> SourceLines<B> {
                         }
                         SourceLine::DirWide(w)
                     }
-                    "include" => SourceLine::DirInclude(arg.to_string()),
-                    "global" | "globl" => SourceLine::DirGlobal(arg.to_string()),
-                    "ref" | "reference" => SourceLine::DirReference(arg.to_string()),
-                    "seg" => SourceLine::DirSeg(arg.to_string()),
+                    "include" => SourceLine::DirInclude(arg.trim().to_string()),
+                    "global" | "globl" => SourceLine::DirGlobal(arg.trim().to_string()),
+                    "ref" | "reference" => SourceLine::DirReference(arg.trim().to_string()),
+                    "seg" => SourceLine::DirSeg(arg.trim().to_string()),
                     "entry" => SourceLine::DirEntry,
                     s => {
                         return Err(Error::new(
-- 
2.43.0


From 1a7d5f06220588956647fac11e983a5bfda2fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 22/55] fix: report any number of errors without overflowing
 the stack

---
 src/source/err.rs | 35 +++++++++++++++--------------------
 src/source/mod.rs |  3 +--
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/source/err.rs b/src/source/err.rs
index 4bbbaf2..4506ba3 100644
--- a/src/source/err.rs
+++ b/src/source/err.rs
@@ -1,5 +1,6 @@
 use std::error::Error as ErrorTrait;
 use std::fmt::{self, Display};
+use std::{iter, mem};
 pub(super) use std::io::Error as IoError;
 pub(super) use std::result::Result as StdResult;
 
@@ -28,7 +29,8 @@ pub struct Error {
     source: Box<str>,
     ln: LineNumber,
     error: ErrorType,
-    next: Option<Box<Self>>,
+    /// Errors that came after this one, none of which have any themselves
+    next: Vec<Self>,
 }
 
 impl Error {
@@ -37,19 +39,15 @@ impl Error {
             source: s.into(),
             ln,
             error,
-            next: None,
+            next: Vec::new(),
         }
     }
-    pub fn chain(mut self, second: Self) -> Self {
-        self.chain_mut(second);
+    pub fn chain(mut self, mut second: Self) -> Self {
+        let mut after_second = mem::take(&mut second.next);
+        self.next.push(second);
+        self.next.append(&mut after_second);
         self
     }
-    fn chain_mut(&mut self, second: Self) {
-        match &mut self.next {
-            Some(first) => first.chain_mut(second),
-            a @ None => *a = Some(Box::new(second)),
-        }
-    }
     // pub(super) fn set_line_number(self, ln: LineNumber) -> Self {
     //     Self { ln, .. self }
     // }
@@ -69,16 +67,18 @@ impl ErrorTrait for Error {
 
 impl Display for Error {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let mut cur = Some(self);
-
-        while let Some(e) = cur {
+        for (i, e) in iter::once(self).chain(&self.next).enumerate() {
             let Self {
                 source,
                 ln,
                 error,
-                next,
+                next: _,
             } = e;
 
+            if i > 0 {
+                writeln!(f)?;
+            }
+
             if *ln == 0 {
                 write!(f, "{source}: ")?;
             } else {
@@ -100,11 +100,6 @@ impl Display for Error {
                 ErrorType::IncorrectOperands(s) => write!(f, "incorrect operands, expected {s}"),
                 ErrorType::Other(s) => write!(f, "{s}"),
             }?;
-            if next.is_some() {
-                writeln!(f)?;
-            }
-
-            cur = next.as_ref().map(|e| &**e);
         }
 
         Ok(())
@@ -117,7 +112,7 @@ impl From<IoError> for Error {
             ln: 0,
             source: "".to_owned().into_boxed_str(),
             error: ErrorType::IoError(e),
-            next: None,
+            next: Vec::new(),
         }
     }
 }
diff --git a/src/source/mod.rs b/src/source/mod.rs
index 165db47..abf0738 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -484,8 +484,7 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
                             .map(|SourceLocation { source, line_number }| Error::new(source, line_number, ErrorType::Other(
                                     format!("non-global label `{l}' was never defined, but used here").into_boxed_str()
                                 )))
-                            // Reversed order to make it faster (since it's a linked list)
-                            .reduce(|accum, item| item.chain(accum))
+                            .reduce(|accum, item| accum.chain(item))
                             .expect("ghost label, expected at least one use location")
                             ;
                         add_error_opt(&mut errors, e);
-- 
2.43.0


From bc63f94cc366b48bc497b16f08d942e05ba9aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 23/55] fix: assemble the documented privileged instructions

---
 src/source/mod.rs | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index abf0738..3aafebd 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -670,6 +670,17 @@ fn parse_ins(
         "ctf" => (CTF, O::parse_nothing(ops).ok_or("no operands")?),
         "syscall" => (SYSCALL, O::parse_nothing(ops).ok_or("no operands")?),
         "reth" => (RETH, O::parse_nothing(ops).ok_or("no operands")?),
+        "usr" => (USR, O::parse_nothing(ops).ok_or("no operands")?),
+        "vmon" => (VMON, O::parse_nothing(ops).ok_or("no operands")?),
+        "vmoff" => (VMOFF, O::parse_nothing(ops).ok_or("no operands")?),
+        "pstore" => (
+            PSTORE,
+            O::parse_byte_wide_byte(ops).ok_or("a byte and a wide register for destination and a byte register")?,
+        ),
+        "pload" => (
+            PLOAD,
+            O::parse_two_byte_one_wide(ops).ok_or("a byte register and a byte and a wide register for source")?,
+        ),
         "nop" => (NOP, O::parse_nothing(ops).ok_or("no operands")?),
         "push" => {
             if let Some(dat_op) = O::parse_breg(ops.clone()) {
@@ -917,6 +928,14 @@ pub fn write_data_operand<F: FnOnce(usize, LabelRead) -> u16>(
             mem.push(r1.0.pair(r2.0));
             mem.push(r3.0.pair(U4::ZERO));
         }
+        ByteWideByte(r1, r2, r3) => {
+            mem.push(r1.0.pair(r2.0));
+            mem.push(r3.0.pair(U4::ZERO));
+        }
+        TwoByteOneWide(r1, r2, r3) => {
+            mem.push(r1.0.pair(r2.0));
+            mem.push(r3.0.pair(U4::ZERO));
+        }
         ThreeByte(r1, r2, r3) => {
             mem.push(r1.0.pair(r2.0));
             mem.push(r3.0.pair(U4::ZERO));
@@ -957,6 +976,8 @@ pub enum DataOperand {
     ByteWideImm(BReg, WReg, Wide),
     TwoWideImm(WReg, WReg, Wide),
     ByteTwoWide(BReg, WReg, WReg),
+    ByteWideByte(BReg, WReg, BReg),
+    TwoByteOneWide(BReg, BReg, WReg),
     ThreeByte(BReg, BReg, BReg),
     ThreeWide(WReg, WReg, WReg),
     FourByte(BReg, BReg, BReg, BReg),
@@ -980,6 +1001,8 @@ impl DataOperand {
             ByteWideImm(_, _, _) => 3,
             TwoWideImm(_, _, _) => 3,
             ByteTwoWide(_, _, _) => 2,
+            ByteWideByte(_, _, _) => 2,
+            TwoByteOneWide(_, _, _) => 2,
             ThreeByte(_, _, _) => 2,
             ThreeWide(_, _, _) => 2,
             FourByte(_, _, _, _) => 2,
@@ -1145,6 +1168,28 @@ impl DataOperand {
         Self::parse_nothing(ops)?;
         ret
     }
+    fn parse_byte_wide_byte<'a>(
+        mut ops: impl Iterator<Item = &'a SourceOperand>,
+    ) -> Option<DataOperand> {
+        let ret = Some(DataOperand::ByteWideByte(
+            Self::byte(ops.next()?)?,
+            Self::wide(ops.next()?)?,
+            Self::byte(ops.next()?)?,
+        ));
+        Self::parse_nothing(ops)?;
+        ret
+    }
+    fn parse_two_byte_one_wide<'a>(
+        mut ops: impl Iterator<Item = &'a SourceOperand>,
+    ) -> Option<DataOperand> {
+        let ret = Some(DataOperand::TwoByteOneWide(
+            Self::byte(ops.next()?)?,
+            Self::byte(ops.next()?)?,
+            Self::wide(ops.next()?)?,
+        ));
+        Self::parse_nothing(ops)?;
+        ret
+    }
     fn parse_four_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-- 
2.43.0


From f27bd73775698a5aa9686a35945fc8dc8b7f3dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 24/55] fix: report files that include themselves instead of
 overflowing the stack

---
 src/source/mod.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 3aafebd..37963a3 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -1,8 +1,9 @@
 use std::{
     collections::BTreeMap,
-    fs::File,
+    fmt::Display,
+    fs::{self, File},
     io::{BufRead, BufReader, ErrorKind, Lines},
-    path::Path,
+    path::{Path, PathBuf},
     slice::Iter,
 };
 
@@ -385,6 +386,8 @@ pub struct DataLineSegment {
 struct ProcessState {
     dls: BTreeMap<SegmentType, DataLineSegment>,
     pub entry: Option<Address>,
+    /// The files that are being read, each included by the one before it
+    including: Vec<PathBuf>,
 }
 
 impl ProcessState {
@@ -392,6 +395,7 @@ impl ProcessState {
         Self {
             dls: BTreeMap::new(),
             entry: None,
+            including: Vec::new(),
         }
     }
     fn get_size(&self, st: SegmentType) -> u16 {
@@ -420,10 +424,11 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
     let mut state = ProcessState::new();
 
     let src = lines.source.clone();
+    state.including.extend(fs::canonicalize(&*src).ok());
 
     let mut errors = inner_process(lines, &mut state, &mut symbols);
 
-    let ProcessState { mut dls, entry } = state;
+    let ProcessState { mut dls, entry, .. } = state;
 
     let mut last_end = PAGE_SIZE_P;
     for s in dls.values_mut() {
@@ -617,8 +622,20 @@ fn inner_process<B: BufRead>(
                     &pth_buf
                 };
 
+                let cannot_include = |reason: &dyn Display| {
+                    let message = format!("cannot include `{}': {reason}", path.display());
+                    Error::new(src, ln, ErrorType::Other(message.into_boxed_str()))
+                };
+
+                let file = fs::canonicalize(path).map_err(|e| cannot_include(&e))?;
+                if state.including.contains(&file) {
+                    return Err(cannot_include(&"file includes itself"));
+                }
                 let lines = SourceLines::new(path)?;
-                if let Some(e) = inner_process(lines, state, symbols) {
+                state.including.push(file);
+                let errors = inner_process(lines, state, symbols);
+                state.including.pop();
+                if let Some(e) = errors {
                     return Err(e);
                 }
             }
-- 
2.43.0


From 5d9a70b423461ebfa8206e57cc45161c5b610dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 25/55] fix: report links that do not fit the address space and
 link zero segments

---
 src/bin/tl.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 25e2222..bd2acee 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -8,7 +8,7 @@ use telda2::{
     aalv::{obj::{
         Entry, Object, RelocationEntry, RelocationTable, SegmentType, SymbolDefinition, SymbolTable,
     }, read_archive},
-    align_end, PAGE_SIZE,
+    PAGE_SIZE_P,
 };
 
 fn one_one(s: &str) -> Result<u16, &'static str> {
@@ -82,6 +82,7 @@ fn main() -> ExitCode {
                 Error::InvalidEntryPointFormat(e) => eprintln!("invalid entry point format: {e}"),
                 Error::NoEntryPoint => eprintln!("No entry point was defined, cannot make executable. Perhaps use -E to set one?"),
                 Error::ReferenceToNonExistantSegment => eprintln!("reference to a segment that was not defined"),
+                Error::DoesNotFit => eprintln!("segments do not fit in the address space"),
                 Error::ObjectFailure => (),
             }
 
@@ -96,6 +97,7 @@ enum Error {
     ObjectFailure,
     NoEntryPoint,
     ReferenceToNonExistantSegment,
+    DoesNotFit,
 }
 
 fn tl_main() -> Result<(), Error> {
@@ -132,21 +134,31 @@ fn tl_main() -> Result<(), Error> {
 
         for (_, obj) in &objects {
             for (&stype, &(_start, ref v)) in &obj.segs {
-                *lengths.entry(stype).or_insert(0) += v.len() as u16;
+                *lengths.entry(stype).or_insert(0) += v.len() as u32;
             }
         }
-        let mut last_end = lengths.remove(&SegmentType::Zero).unwrap_or(0);
-        last_end = last_end.max(PAGE_SIZE);
+        let mut last_end = 0;
+        if let Some(size) = lengths.remove(&SegmentType::Zero) {
+            segs_out.insert(SegmentType::Zero, (0, Vec::with_capacity(size as usize)));
+            last_end = size;
+        }
+        last_end = last_end.max(PAGE_SIZE_P);
 
         for (st, size) in lengths {
-            let start = align_end(last_end, segment_alignment);
-            segs_out.insert(st, (start, Vec::with_capacity(size as usize)));
+            let start = last_end.next_multiple_of(segment_alignment as u32);
             last_end = start + size;
+            if last_end > u16::MAX as u32 {
+                return Err(Error::DoesNotFit);
+            }
+            segs_out.insert(st, (start as u16, Vec::with_capacity(size as usize)));
 
             if verbose {
                 println!("segment {st} @ 0x{start:04x} w/ {} bytes (0x{0:02x})", size);
             }
         }
+        if last_end > u16::MAX as u32 {
+            return Err(Error::DoesNotFit);
+        }
     }
 
     let mut segs: BTreeMap<_, _> = segs_out
-- 
2.43.0


From a64cf0c992d733cbc7449efde1a53edca9265763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 26/55] fix: do not accept an undefined symbol as entry point

---
 src/bin/tl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index bd2acee..56644d3 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -308,8 +308,11 @@ fn tl_main() -> Result<(), Error> {
                     SegmentType::Zero,
                     u16::from_str_radix(entry, 16).map_err(Error::InvalidEntryPointFormat)?,
                 )
-            } else if let Some(&pos) = global_symbols.get(&*entry) {
-                let sym = &symbols_out[pos];
+            } else if let Some(sym) = global_symbols
+                .get(&*entry)
+                .map(|&pos| &symbols_out[pos])
+                .filter(|sym| sym.segment_type != SegmentType::Unknown)
+            {
                 Entry(sym.segment_type, sym.location)
             } else {
                 eprintln!("Start symbol {entry} was not found. Perhaps it is not global?");
-- 
2.43.0


From c3bf795e03616bc272ba9f616d6148b0b0c886b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 27/55] fix: report inconsistent input objects instead of
 panicking

---
 src/bin/tl.rs | 53 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 56644d3..97f55b2 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -83,6 +83,7 @@ fn main() -> ExitCode {
                 Error::NoEntryPoint => eprintln!("No entry point was defined, cannot make executable. Perhaps use -E to set one?"),
                 Error::ReferenceToNonExistantSegment => eprintln!("reference to a segment that was not defined"),
                 Error::DoesNotFit => eprintln!("segments do not fit in the address space"),
+                Error::Inconsistent(file, what) => eprintln!("{file}: {what}"),
                 Error::ObjectFailure => (),
             }
 
@@ -98,6 +99,7 @@ enum Error {
     NoEntryPoint,
     ReferenceToNonExistantSegment,
     DoesNotFit,
+    Inconsistent(String, &'static str),
 }
 
 fn tl_main() -> Result<(), Error> {
@@ -178,10 +180,13 @@ fn tl_main() -> Result<(), Error> {
     let mut failure = false;
 
     for (input_file, mut obj) in objects {
-        entry_point = entry_point.or_else(|| {
-            obj.entry
-                .map(|Entry(st, ep)| Entry(st, ep - obj.segs[&st].0 + segs[&st].0))
-        });
+        let inconsistent = |what| Error::Inconsistent(input_file.clone(), what);
+
+        if let (None, Some(Entry(st, ep))) = (entry_point, obj.entry) {
+            let location = relocate(&obj.segs, &segs, st, ep)
+                .ok_or_else(|| inconsistent("entry point is outside its segment"))?;
+            entry_point = Some(Entry(st, location));
+        }
 
         let mut file_symbol_to_out_symbol = Vec::new();
         let reloc;
@@ -190,8 +195,8 @@ fn tl_main() -> Result<(), Error> {
                 let next_id = symbols_out.len();
                 let mut id_in_fstos = None;
 
-                symdef.location -= obj.segs.get(&symdef.segment_type).map(|s| s.0).unwrap_or(0);
-                symdef.location += segs.get(&symdef.segment_type).map(|s| s.0).unwrap_or(0);
+                symdef.location = relocate(&obj.segs, &segs, symdef.segment_type, symdef.location)
+                    .ok_or_else(|| inconsistent("symbol is outside its segment"))?;
 
                 if symdef.is_global {
                     match global_symbols.get(&symdef.name) {
@@ -239,16 +244,20 @@ fn tl_main() -> Result<(), Error> {
             symbol_index,
         } in reloc
         {
-            let symbol_index = file_symbol_to_out_symbol[symbol_index as usize];
-
-            let location_in_file = reference_location - obj.segs[&reference_segment].0;
-            let reference_location = location_in_file + segs[&reference_segment].0;
+            let symbol_index = *file_symbol_to_out_symbol
+                .get(symbol_index as usize)
+                .ok_or_else(|| inconsistent("relocation of a symbol that does not exist"))?;
 
-            let bytes = &mut obj
+            let &mut (segment_start, ref mut bytes) = obj
                 .segs
                 .get_mut(&reference_segment)
-                .ok_or(Error::ReferenceToNonExistantSegment)?
-                .1;
+                .ok_or(Error::ReferenceToNonExistantSegment)?;
+
+            let location_in_file = reference_location
+                .checked_sub(segment_start)
+                .filter(|&l| l as usize + 2 <= bytes.len())
+                .ok_or_else(|| inconsistent("relocation is outside its segment"))?;
+            let reference_location = location_in_file + segs[&reference_segment].0;
 
             let symdef = &symbols_out[symbol_index];
             let undefined = matches!(symdef.segment_type, SegmentType::Unknown);
@@ -360,6 +369,24 @@ fn tl_main() -> Result<(), Error> {
     Ok(())
 }
 
+/// Moves a location in an input segment to where that input's part of the output segment starts
+///
+/// Locations in segments the input has no bytes for have no start that they are relative to
+fn relocate(
+    input: &BTreeMap<SegmentType, (u16, Vec<u8>)>,
+    output: &BTreeMap<SegmentType, (u16, &mut Vec<u8>)>,
+    segment: SegmentType,
+    location: u16,
+) -> Option<u16> {
+    let mut offset = location;
+    if let Some((start, bytes)) = input.get(&segment) {
+        offset = location
+            .checked_sub(*start)
+            .filter(|&o| o as usize <= bytes.len())?;
+    }
+    offset.checked_add(output.get(&segment).map_or(0, |s| s.0))
+}
+
 #[repr(transparent)]
 struct DefinedMap(HashMap<Box<str>, bool>);
 
-- 
2.43.0


From 1821cccbb3fcdcd8a8f79641ef8ce883a5601c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 28/55] fix: report that raw binary output is unsupported
 instead of panicking

---
 src/bin/tl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 97f55b2..a275a10 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -83,6 +83,7 @@ fn main() -> ExitCode {
                 Error::NoEntryPoint => eprintln!("No entry point was defined, cannot make executable. Perhaps use -E to set one?"),
                 Error::ReferenceToNonExistantSegment => eprintln!("reference to a segment that was not defined"),
                 Error::DoesNotFit => eprintln!("segments do not fit in the address space"),
+                Error::RawBinaryUnsupported => eprintln!("raw binary output is not supported yet"),
                 Error::Inconsistent(file, what) => eprintln!("{file}: {what}"),
                 Error::ObjectFailure => (),
             }
@@ -99,6 +100,7 @@ enum Error {
     NoEntryPoint,
     ReferenceToNonExistantSegment,
     DoesNotFit,
+    RawBinaryUnsupported,
     Inconsistent(String, &'static str),
 }
 
@@ -126,7 +128,7 @@ fn tl_main() -> Result<(), Error> {
     let objects: Vec<_> = objects.into_iter().chain(lib_objects).collect();
 
     if raw_binary {
-        unimplemented!("unsupported rn :3");
+        return Err(Error::RawBinaryUnsupported);
     }
 
     let mut segs_out = BTreeMap::new();
-- 
2.43.0


From dc082f2efb8cb0066bcd6c9e647d59443c6803ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 29/55] fix: disassemble all four operands of mul and div

---
 src/disassemble.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 47c4ec3..e95151a 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -198,10 +198,10 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
         ASR_W => binop("asr", WideRegister, &mut c, f)?,
         LSR_B => binop("lsr", ByteRegister, &mut c, f)?,
         LSR_W => binop("lsr", WideRegister, &mut c, f)?,
-        DIV_B => binop("div", ByteRegister, &mut c, f)?,
-        DIV_W => binop("div", WideRegister, &mut c, f)?,
-        MUL_B => binop("mul", ByteRegister, &mut c, f)?,
-        MUL_W => binop("mul", WideRegister, &mut c, f)?,
+        DIV_B => four_op("div", ByteRegister, &mut c, f)?,
+        DIV_W => four_op("div", WideRegister, &mut c, f)?,
+        MUL_B => four_op("mul", ByteRegister, &mut c, f)?,
+        MUL_W => four_op("mul", WideRegister, &mut c, f)?,
         b => {
             write!(f, "0x{b:02x}").unwrap();
             ends_block = true;
@@ -262,6 +262,19 @@ fn binop<T: Display, RF: Fn(U4) -> T>(
     Ok(())
 }
 
+fn four_op<T: Display, RF: Fn(U4) -> T>(
+    name: &str,
+    rf: RF,
+    c: &mut HandlerContext,
+    f: &mut String,
+) -> Result<(), TrapMode> {
+    let (r1, r2) = arg_pair(c, &rf, &rf)?;
+    let (r3, r4) = arg_pair(c, &rf, &rf)?;
+    write!(f, "{name} {r1}, {r2}, {r3}, {r4}").unwrap();
+
+    Ok(())
+}
+
 enum Operand<'a> {
     Byte(u8),
     Wide(u16),
-- 
2.43.0


From f26e7e2e4c791b4e90ead83bec4247a6104382fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 30/55] fix: disassemble the privileged instructions

---
 src/disassemble.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index e95151a..16d1f8c 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -74,6 +74,19 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
             write!(f, "reth").unwrap();
             ends_block = true;
         }
+        USR => write!(f, "usr").unwrap(),
+        VMON => write!(f, "vmon").unwrap(),
+        VMOFF => write!(f, "vmoff").unwrap(),
+        PSTORE => {
+            let (r1, r2) = arg_pair(&mut c, ByteRegister, WideRegister)?;
+            let (r3, _) = arg_pair(&mut c, ByteRegister, identity)?;
+            write!(f, "pstore {r1}, {r2}, {r3}").unwrap();
+        }
+        PLOAD => {
+            let (r1, r2) = arg_pair(&mut c, ByteRegister, ByteRegister)?;
+            let (r3, _) = arg_pair(&mut c, WideRegister, identity)?;
+            write!(f, "pload {r1}, {r2}, {r3}").unwrap();
+        }
         NOP => write!(f, "nop").unwrap(),
         PUSH_B => {
             let (r1, _) = arg_pair(&mut c, ByteRegister, identity)?;
-- 
2.43.0


From dba34099e7828d5b3bdad1b89a110f5a1316b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 31/55] fix: disassemble at the end of memory and leave the
 program counter alone on failure

---
 src/disassemble.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 16d1f8c..cf77d58 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -40,6 +40,17 @@ pub struct DisassembledInstruction {
 pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
     machine: &mut Machine<M, Blf4>,
     label_lookup: F,
+) -> Result<DisassembledInstruction, TrapMode> {
+    let addr = machine.cpu.program_counter;
+    let res = disassemble_at_program_counter(machine, label_lookup);
+    // restore rpc, also if not all of the instruction could be fetched
+    machine.cpu.program_counter = addr;
+    res
+}
+
+fn disassemble_at_program_counter<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
+    machine: &mut Machine<M, Blf4>,
+    label_lookup: F,
 ) -> Result<DisassembledInstruction, TrapMode> {
     use crate::blf4::isa::*;
     let m = &mut StrictMemory {
@@ -227,13 +238,11 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
     write!(&mut annotated_source, "  {addr:04x}: ").unwrap();
 
     c.cpu.program_counter = addr;
-    for _ in addr..next_instruction_location {
+    let size = next_instruction_location.wrapping_sub(addr);
+    for _ in 0..size {
         write!(&mut annotated_source, " {:02x}", c.fetch()?).unwrap();
     }
-    // restore rpc
-    c.cpu.program_counter = addr;
-
-    for _ in 0..(4 - (next_instruction_location - addr)) {
+    for _ in 0..(4 - size) {
         write!(&mut annotated_source, "   ").unwrap();
     }
     write!(&mut annotated_source, "    {op}").unwrap();
-- 
2.43.0


From 0702906284afc41263eba463b0d518c5f71dd2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 32/55] fix: exit with failure if a file could not be dumped

---
 src/bin/tobjdump.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 06b2617..3330db2 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -93,7 +93,7 @@ fn main() -> ExitCode {
         }
     } 
 
-    ExitCode::SUCCESS
+    ret
 }
 
 fn symbols(obj: &Object) {
-- 
2.43.0


From b566d41d6a539267537c797e6070a47beb5ead81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 33/55] fix: report symbols to disassemble from that do not
 exist instead of panicking

---
 src/bin/tobjdump.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 3330db2..f94893b 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -82,6 +82,7 @@ fn main() -> ExitCode {
     } = Cli::parse();
 
     let mut ret = ExitCode::SUCCESS;
+    let mut failure = false;
 
     for (f, obj) in input_files.into_iter().flat_map(|p| read_objs(&mut ret, p)) {
         println!("{f}:");
@@ -89,10 +90,15 @@ fn main() -> ExitCode {
             symbols(&obj);
         }
         if disassemble {
-            disassembly(&obj, &dissasemble_from, show_relocations);
+            if !disassembly(&obj, &dissasemble_from, show_relocations) {
+                failure = true;
+            }
         }
     } 
 
+    if failure {
+        ret = ExitCode::FAILURE;
+    }
     ret
 }
 
@@ -124,18 +130,23 @@ fn symbols(obj: &Object) {
     }
 }
 
-fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bool) {
+/// Returns whether all the symbols to start from exist
+fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bool) -> bool {
     let syms = &obj.symbols.0;
+    let mut all_found = true;
 
     let symbols: VecDeque<usize>;
     if let Some(start_symbol) = start_symbol.as_ref() {
         symbols = start_symbol
             .split(',')
             .map(|s| s.trim())
-            .map(|name| {
-                syms.iter()
-                    .position(|s| &*s.name == name)
-                    .expect("start symbol did not exist in symbol table")
+            .filter_map(|name| {
+                let id = syms.iter().position(|s| &*s.name == name);
+                if id.is_none() {
+                    eprintln!("start symbol {name} did not exist in symbol table");
+                    all_found = false;
+                }
+                id
             })
             .collect();
     } else {
@@ -273,4 +284,6 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
         }
         println!();
     }
+
+    all_found
 }
-- 
2.43.0


From 8445ac9fec884ec90d8be601fea55238159b5a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 34/55] fix: map the heap from the start of its segment

---
 src/blf4/std_kernel/load_user_binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blf4/std_kernel/load_user_binary.rs b/src/blf4/std_kernel/load_user_binary.rs
index 9f86c6a..94b5d1d 100644
--- a/src/blf4/std_kernel/load_user_binary.rs
+++ b/src/blf4/std_kernel/load_user_binary.rs
@@ -1,6 +1,6 @@
 use crate::{
     aalv::obj::{Flags, Object, SegmentType},
-    align_end, align_start,
+    align_start,
     machine::Machine,
     mem::MainMemory,
     PAGE_SIZE,
@@ -47,8 +47,8 @@ impl<M: MainMemory> Machine<M, Blf4> {
 
             mmbuilder.add_segment(permissions, offset, bytes);
             if heap {
-                let heap = align_end(offset, PAGE_SIZE);
-                let size = heap_size - bytes.len() as u16;
+                let heap = align_start(offset, PAGE_SIZE);
+                let size = heap_size.saturating_add(offset - heap);
                 mmbuilder.map_wr_pages(heap, size);
             }
         }
-- 
2.43.0


From 7429e18d8ec790776ab21aab8a55e89063ea2d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 35/55] fix: load segments that reach the end of the address
 space and reject those that do not fit

---
 src/aalv/obj.rs        | 6 ++++++
 src/blf4/std_kernel.rs | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index c33352f..45fa76e 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -34,6 +34,12 @@ impl Object {
                 bytes,
             } = seg?;
 
+            if offset as usize + bytes.len() > u16::MAX as usize + 1 {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "segment does not fit in the address space",
+                ));
+            }
             if segs.insert(stype, (offset, bytes)).is_some() {
                 return Err(io::Error::new(
                     io::ErrorKind::InvalidData,
diff --git a/src/blf4/std_kernel.rs b/src/blf4/std_kernel.rs
index be554ec..d923093 100644
--- a/src/blf4/std_kernel.rs
+++ b/src/blf4/std_kernel.rs
@@ -140,8 +140,9 @@ impl<M: MainMemory> MmapBuilder<'_, M> {
         // let mut bytes = bytes;
         // map all pages the segment overlaps with
         let start_vpage = align_start(offset, PAGE_SIZE);
-        let range = start_vpage..offset + bytes.len() as u16;
+        let range = start_vpage as usize..offset as usize + bytes.len();
         for vaddr in range.step_by(PAGE_SIZE as usize) {
+            let vaddr = vaddr as u16;
             let paddr = self.map(vaddr, perm_bits);
 
             // write page to memory
-- 
2.43.0


From e94b1d6c6e940a6bf7477500f2ca0b294de5cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 36/55] fix: quit the debugger at the end of its input

---
 src/bin/tdbg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index a626247..e1374cd 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -184,7 +184,11 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
             stdout().flush().expect("stdout failed");
 
             input.clear();
-            stdin.read_line(&mut input).expect("stdin failed");
+            if stdin.read_line(&mut input).expect("stdin failed") == 0 {
+                // no more commands
+                println!();
+                break 'disassemble_loop;
+            }
 
             match input.trim() {
                 "q" | "quit" => break 'disassemble_loop,
-- 
2.43.0


From 70ec6f11cea1bcf3acd81e829b69beb788d5dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 37/55] fix: show in the debugger that memory cannot be read
 instead of panicking

---
 src/bin/tdbg.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index e1374cd..cd38332 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -211,11 +211,14 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
                         }
                     };
                     let mut c = machine.cpu.context(&mut machine.memory);
-                    println!(
-                        " = 0x{:02x} 0x{:02x} ...",
-                        c.read(addr).unwrap(),
-                        c.read(addr + 1).unwrap()
-                    );
+                    print!(" =");
+                    for addr in [addr, addr.wrapping_add(1)] {
+                        match c.read(addr) {
+                            Ok(b) => print!(" 0x{b:02x}"),
+                            Err(tm) => print!(" {tm:?}"),
+                        }
+                    }
+                    println!(" ...");
                 }
                 "r0b" => print_byte_register("r0b", R0B, &machine.cpu),
                 "r1l" => print_byte_register("r1l", R1L, &machine.cpu),
-- 
2.43.0


From 9b2ac5041c5e415503306b1fdbb001b1aadc2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 38/55] fix: debug jumps to where no instruction can be fetched
 instead of panicking

---
 src/bin/tdbg.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index cd38332..3279b75 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -8,7 +8,7 @@ use std::{
 use telda2::{
     aalv::obj::{Object, SymbolDefinition},
     blf4::*,
-    disassemble::disassemble_instruction,
+    disassemble::{disassemble_instruction, DisassembledInstruction},
     machine::Machine,
     mem::{Io, LazyMain},
 };
@@ -149,8 +149,15 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
     let mut current_nesting = 0;
 
     'disassemble_loop: loop {
-        let dins =
-            disassemble_instruction(&mut machine, |p| pos_to_labels.get(&p).map(|s| &**s)).unwrap();
+        let pc = machine.cpu.program_counter;
+        let dins = disassemble_instruction(&mut machine, |p| pos_to_labels.get(&p).map(|s| &**s))
+            .unwrap_or_else(|tm| DisassembledInstruction {
+                // executing it will trap, but that can be handled
+                annotated_source: format!("  {pc:04x}:  {tm:?}"),
+                ends_block: true,
+                nesting_difference: 0,
+                next_instruction_location: pc,
+            });
 
         if false && todo!("is trapping") {
             println!("handled trap encountered!");
-- 
2.43.0


From 75a1ae8f752060e4a05dbc42ce01ebf289d1c816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 39/55] fix: print output of a debugged program that does not
 end in a newline

---
 src/bin/tdbg.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 3279b75..4f25ea8 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -18,15 +18,30 @@ struct DbgIo {
     out_buf: Vec<u8>,
 }
 
+impl DbgIo {
+    fn print_line(&mut self) {
+        print!("STDOUT line: ");
+        std::io::stdout()
+            .write_all(&self.out_buf)
+            .expect("stdout failed");
+        println!();
+        self.out_buf.clear();
+    }
+}
+
+impl Drop for DbgIo {
+    fn drop(&mut self) {
+        // the last line might not have been ended
+        if !self.out_buf.is_empty() {
+            self.print_line();
+        }
+    }
+}
+
 impl Io for DbgIo {
     fn write(&mut self, _addr: u8, val: u8) {
         if val == b'\n' {
-            print!("STDOUT line: ");
-            std::io::stdout()
-                .write_all(&self.out_buf)
-                .expect("stdout failed");
-            println!();
-            self.out_buf.clear();
+            self.print_line();
         } else {
             self.out_buf.push(val);
         }
-- 
2.43.0


From 37b243e25f363491798a3e7c46479b233fd66381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 40/55] fix: end the debugger when the program needs input and
 there is no more

---
 src/bin/tdbg.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 4f25ea8..54482f9 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -51,7 +51,14 @@ impl Io for DbgIo {
             print!("STDIN requested: ");
             stdout().flush().expect("stdin failed");
             let mut buf = String::new();
-            std::io::stdin().read_line(&mut buf).expect("stdin failed");
+            if std::io::stdin().read_line(&mut buf).expect("stdin failed") == 0 {
+                println!();
+                if !self.out_buf.is_empty() {
+                    self.print_line();
+                }
+                eprintln!("program requested input, but there is no more");
+                std::process::exit(1);
+            }
             self.in_buf.extend(buf.into_bytes());
         }
         self.in_buf
-- 
2.43.0


From 9c88e29b062d5703191fc9b8ad1c69f11311f4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 41/55] fix: accept debugger input that is not UTF-8

---
 src/bin/tdbg.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 54482f9..13c3f7c 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -1,6 +1,6 @@
 use std::{
     collections::{HashMap, VecDeque},
-    io::{stdin, stdout, Write},
+    io::{stdin, stdout, BufRead, Write},
     path::PathBuf,
     process::ExitCode,
 };
@@ -50,8 +50,8 @@ impl Io for DbgIo {
         if self.in_buf.is_empty() {
             print!("STDIN requested: ");
             stdout().flush().expect("stdin failed");
-            let mut buf = String::new();
-            if std::io::stdin().read_line(&mut buf).expect("stdin failed") == 0 {
+            let mut buf = Vec::new();
+            if std::io::stdin().lock().read_until(b'\n', &mut buf).expect("stdin failed") == 0 {
                 println!();
                 if !self.out_buf.is_empty() {
                     self.print_line();
@@ -59,7 +59,7 @@ impl Io for DbgIo {
                 eprintln!("program requested input, but there is no more");
                 std::process::exit(1);
             }
-            self.in_buf.extend(buf.into_bytes());
+            self.in_buf.extend(buf);
         }
         self.in_buf
             .pop_front()
@@ -166,7 +166,7 @@ fn main() -> ExitCode {
 
 fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap<u16, Box<str>>) {
     let stdin = stdin();
-    let mut input = String::new();
+    let mut input = Vec::new();
     let mut target_nesting = 0;
     let mut current_nesting = 0;
 
@@ -213,13 +213,13 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
             stdout().flush().expect("stdout failed");
 
             input.clear();
-            if stdin.read_line(&mut input).expect("stdin failed") == 0 {
+            if stdin.lock().read_until(b'\n', &mut input).expect("stdin failed") == 0 {
                 // no more commands
                 println!();
                 break 'disassemble_loop;
             }
 
-            match input.trim() {
+            match String::from_utf8_lossy(&input).trim() {
                 "q" | "quit" => break 'disassemble_loop,
                 "n" | "next" => {
                     break current_nesting;
-- 
2.43.0


From d69178c168084ed442b447262350f2b984a34cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 42/55] fix: dump relocations that refer to no symbol instead
 of panicking

---
 src/bin/tobjdump.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index f94893b..6d3949d 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -195,7 +195,8 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
             return Cow::Borrowed(".entry");
         }
 
-        let name = &*syms[id].name;
+        // relocations of a damaged object may refer to symbols that do not exist
+        let name = syms.get(id).map_or("", |s| &*s.name);
         if name.is_empty() {
             Cow::Owned(format!("@L{id}"))
         } else {
-- 
2.43.0


From 9c8f8f347f8f792fb8a26d599e9bc08e6b91213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 43/55] fix: refuse labels containing a null character, which
 break the symbol table

---
 src/source/mod.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 37963a3..797e586 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -125,10 +125,19 @@ fn parse_number(arg: &str) -> StdResult<SourceOperand, ErrorType> {
     Ok(if let Some(so) = so {
         so
     } else {
-        SourceOperand::Label(arg.to_owned())
+        SourceOperand::Label(parse_label(arg)?)
     })
 }
 
+fn parse_label(name: &str) -> StdResult<String, ErrorType> {
+    if name.contains('\0') {
+        // It would end the name in the symbol table
+        Err(ErrorType::Other("null character in label".into()))
+    } else {
+        Ok(name.to_owned())
+    }
+}
+
 impl<B: BufRead> SourceLines<B> {
     pub fn from_reader(r: B) -> Self {
         SourceLines {
@@ -251,8 +260,14 @@ impl<B: BufRead> SourceLines<B> {
                         SourceLine::DirWide(w)
                     }
                     "include" => SourceLine::DirInclude(arg.trim().to_string()),
-                    "global" | "globl" => SourceLine::DirGlobal(arg.trim().to_string()),
-                    "ref" | "reference" => SourceLine::DirReference(arg.trim().to_string()),
+                    "global" | "globl" => SourceLine::DirGlobal(
+                        parse_label(arg.trim())
+                            .map_err(|et| Error::new(self.source.clone(), self.ln, et))?,
+                    ),
+                    "ref" | "reference" => SourceLine::DirReference(
+                        parse_label(arg.trim())
+                            .map_err(|et| Error::new(self.source.clone(), self.ln, et))?,
+                    ),
                     "seg" => SourceLine::DirSeg(arg.trim().to_string()),
                     "entry" => SourceLine::DirEntry,
                     s => {
@@ -264,7 +279,10 @@ impl<B: BufRead> SourceLines<B> {
                     }
                 }
             } else if let Some(line) = line.strip_suffix(':') {
-                SourceLine::Label(line.to_owned())
+                SourceLine::Label(
+                    parse_label(line)
+                        .map_err(|et| Error::new(self.source.clone(), self.ln, et))?,
+                )
             } else if let Some(i) = line.find(' ') {
                 let (ins, args) = line.split_at(i);
                 let mut sos = Vec::new();
-- 
2.43.0


From 19c6e7c272d176e3c1373102dc7a5de5d445927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 44/55] fix: dump relocations of an instruction at the end of
 the address space instead of panicking

---
 src/bin/tobjdump.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 6d3949d..6a3c3fc 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -262,8 +262,12 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
             };
 
             if show_relocations {
-                for (&loc, &sym) in relocs.range(location..next_instruction_location) {
-                    println!("    RELOC: {} @ 0x{loc:02x}", get_name(sym));
+                // the instruction might wrap around the end of the address space
+                let size = next_instruction_location.wrapping_sub(location);
+                for loc in (0..size).map(|i| location.wrapping_add(i)) {
+                    if let Some(&sym) = relocs.get(&loc) {
+                        println!("    RELOC: {} @ 0x{loc:02x}", get_name(sym));
+                    }
                 }
             }
             println!("{}", annotated_source);
-- 
2.43.0


From b10626be4a405031df2ca8389c9c09aba4bd682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 45/55] fix: do not leave a broken object behind if one cannot
 be represented

---
 src/aalv/obj.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index 45fa76e..2aac817 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -1,11 +1,11 @@
 use std::{
     collections::BTreeMap,
     fmt::{self, Display},
-    io::{self, BufRead, Seek},
+    io::{self, BufRead, Seek, Write},
     path::Path,
 };
 
-use super::{read_aalv_file, write_aalv_file_with_offset, AalvReader, Section};
+use super::{read_aalv_file, write_aalv_file_with_offset, AalvReader, AalvWriter, Section};
 
 mod sec_impl;
 
@@ -88,8 +88,14 @@ impl Object {
         }
     }
     pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> io::Result<()> {
+        // leave the file alone if the object cannot be represented
+        self.write(AalvWriter::new(io::Cursor::new(Vec::new()), 0)?)?;
+
+        self.write(write_aalv_file_with_offset(path, self.file_offset)?)
+    }
+    fn write<F: Write + Seek>(&self, mut aalvur: AalvWriter<F>) -> io::Result<()> {
         let Object {
-            file_offset,
+            file_offset: _,
             entry,
             flags,
             stack_size,
@@ -99,8 +105,6 @@ impl Object {
             relocation_table,
         } = self;
 
-        let mut aalvur = write_aalv_file_with_offset(path, *file_offset)?;
-
         if let Some(entry) = entry {
             aalvur.write_section(entry)?;
         }
-- 
2.43.0


From b0aed8a7c8ba40460dc971c75f56ca86c8b7c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 46/55] fix: keep the output file if the linked executable
 cannot be represented

---
 src/bin/tl.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index a275a10..ee8088e 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BTreeMap, HashMap}, fs::{self, File}, io::{self, Seek, Write}, num::ParseIntError, ops::Deref, os::unix::prelude::PermissionsExt, path::PathBuf, process::ExitCode
+    collections::{BTreeMap, HashMap}, fs::{self, File}, io::{self, Write}, num::ParseIntError, ops::Deref, os::unix::prelude::PermissionsExt, path::PathBuf, process::ExitCode
 };
 
 use clap::Parser;
@@ -351,16 +351,18 @@ fn tl_main() -> Result<(), Error> {
             return Err(Error::NoEntryPoint);
         }
 
-        let mut obj = obj;
-        {
-            let mut file = File::create(&out).map_err(Error::Io)?;
-            writeln!(file, "#!/bin/env t").map_err(Error::Io)?;
-
-            obj.file_offset = file.stream_position().map_err(Error::Io)?;
-        }
+        let interpreter = "#!/bin/env t\n";
+        let obj = Object {
+            file_offset: interpreter.len() as u64,
+            ..obj
+        };
 
+        // The object comes first, as the file is left alone if it cannot be represented
         obj.write_to_file(&out).map_err(Error::Io)?;
 
+        let mut file = File::options().write(true).open(&out).map_err(Error::Io)?;
+        file.write_all(interpreter.as_bytes()).map_err(Error::Io)?;
+
         let mut perms = fs::metadata(&out).map_err(Error::Io)?.permissions();
         perms.set_mode(perms.mode() | 0o111);
         fs::set_permissions(&out, perms).map_err(Error::Io)?;
-- 
2.43.0


From e05e599b2b08a5034bb855855cbffaa9340d5dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:34 +0000
Subject: [PATCH 47/55] fix: the memory map in direct mode shows where direct
 mode really leads

---
 src/blf4/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 47a3e1e..902526c 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -401,7 +401,7 @@ impl HandlerContext<'_> {
     }
     pub fn print_mmap(&mut self) {
         if !self.cpu.flags.virtual_mode {
-            println!("PPP_ => ffPPP_ (U XWR)");
+            println!("PPP_ => 00PPP_ (U XWR)");
             return;
         }
 
-- 
2.43.0


From a9e7e2d31be10dd08657f9f4cd9e0846bfe73e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 48/55] fix: tdbg: refuse an entry symbol that is not defined
 in the object

---
 src/bin/tdbg.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 13c3f7c..bfa8296 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use telda2::{
-    aalv::obj::{Object, SymbolDefinition},
+    aalv::obj::{Object, SegmentType, SymbolDefinition},
     blf4::*,
     disassemble::{disassemble_instruction, DisassembledInstruction},
     machine::Machine,
@@ -120,11 +120,11 @@ fn main() -> ExitCode {
                 for &SymbolDefinition {
                     ref name,
                     is_global,
+                    segment_type,
                     location,
-                    ..
                 } in &obj.symbols.0
                 {
-                    if **name == *entry {
+                    if **name == *entry && segment_type != SegmentType::Unknown {
                         if is_global {
                             ep_candidate = Some(location);
                             // break because global symbols are unique
@@ -136,9 +136,11 @@ fn main() -> ExitCode {
                     }
                 }
 
-                if let Some(ep) = ep_candidate {
-                    machine.cpu.program_counter = ep;
-                }
+                let Some(ep) = ep_candidate else {
+                    eprintln!("entry symbol {entry} was not found");
+                    return ExitCode::FAILURE;
+                };
+                machine.cpu.program_counter = ep;
             }
         }
 
-- 
2.43.0


From c286aa6fdefdea5c732b66bc028c8a18ecce5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 49/55] fix: t: name a symbol at address zero as termination
 point

---
 src/bin/t.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/t.rs b/src/bin/t.rs
index ebb66ce..bd9bc7b 100644
--- a/src/bin/t.rs
+++ b/src/bin/t.rs
@@ -85,14 +85,15 @@ fn t_main() -> Result<(), Error> {
     if termination_point {
         let pc = machine.cpu.program_counter;
         let mut diff = pc;
-        let mut closest = "".into();
+        let mut closest: Box<str> = "".into();
         for SymbolDefinition { name, location, .. } in symbols {
             if name.is_empty() {
                 continue;
             }
             if pc >= location {
                 let new_diff = pc - location;
-                if new_diff < diff {
+                // the first one might be at address zero
+                if closest.is_empty() || new_diff < diff {
                     diff = new_diff;
                     closest = name;
                 }
-- 
2.43.0


From c72aae7987a949c6fcdb1132002a8b49cc901e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 50/55] fix: t: do not name undefined symbols as termination
 point

---
 src/bin/t.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/t.rs b/src/bin/t.rs
index bd9bc7b..9f2dc7f 100644
--- a/src/bin/t.rs
+++ b/src/bin/t.rs
@@ -8,7 +8,7 @@ use std::{
 
 use clap::Parser;
 use telda2::{
-    aalv::obj::{Object, SymbolDefinition, SymbolTable},
+    aalv::obj::{Object, SegmentType, SymbolDefinition, SymbolTable},
     blf4::{Blf4, TrapMode},
     machine::Machine,
     mem::{LazyMain, StdIo},
@@ -86,8 +86,9 @@ fn t_main() -> Result<(), Error> {
         let pc = machine.cpu.program_counter;
         let mut diff = pc;
         let mut closest: Box<str> = "".into();
-        for SymbolDefinition { name, location, .. } in symbols {
-            if name.is_empty() {
+        for SymbolDefinition { name, location, segment_type, .. } in symbols {
+            // undefined symbols are nowhere
+            if name.is_empty() || segment_type == SegmentType::Unknown {
                 continue;
             }
             if pc >= location {
-- 
2.43.0


From 6566a8a9912820d41ea31e1efa9afaec582a7e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:59 +0000
Subject: [PATCH 51/55] fix: tar no longer copies an archive into itself
 without end

With the output among the inputs, the input was truncated before it was
read, and then copied from its own end until the disk was full. Read all
inputs before creating the output.
---
 src/bin/tar.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bin/tar.rs b/src/bin/tar.rs
index 6cdca34..e8d2fa0 100644
--- a/src/bin/tar.rs
+++ b/src/bin/tar.rs
@@ -1,5 +1,5 @@
 use std::{
-    fs::File, io::{self, Write}, path::PathBuf, process::ExitCode
+    fs::{self, File}, io::{self, Write}, path::PathBuf, process::ExitCode
 };
 
 use clap::Parser;
@@ -34,12 +34,14 @@ fn tar_main() -> Result<(), io::Error> {
         output_file,
     } = Cli::parse();
 
+    // The output may be one of the inputs, so read everything before creating it
+    let inputs = input_files.iter().map(fs::read).collect::<Result<Vec<_>, _>>()?;
+
     let mut out = File::create(output_file)?;
     out.write_all("álvasavn\n".as_bytes())?;
 
-    for input_file in input_files {
-        let mut input = File::open(input_file)?;
-        io::copy(&mut input, &mut out)?;
+    for input in inputs {
+        out.write_all(&input)?;
     }
     out.sync_all()?;
 
-- 
2.43.0


From 3b378ba138262699f7d02a5221c57c4014337b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 52/55] fix: the assembler takes file names that are not UTF-8

---
 src/bin/tc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tc.rs b/src/bin/tc.rs
index 05de86b..4239a2a 100644
--- a/src/bin/tc.rs
+++ b/src/bin/tc.rs
@@ -1,4 +1,4 @@
-use std::{collections::BTreeMap, env::args, path::Path, process::ExitCode};
+use std::{collections::BTreeMap, env::args_os, path::Path, process::ExitCode};
 
 use telda2::{
     aalv::obj::{
@@ -13,7 +13,7 @@ use telda2::{
 
 fn main() -> ExitCode {
     let mut ret = ExitCode::SUCCESS;
-    for arg in args().skip(1) {
+    for arg in args_os().skip(1) {
         let p = Path::new(&arg);
         let ProcessedSource { labels, dls, entry } = match SourceLines::new(p).and_then(process) {
             Ok(s) => s,
-- 
2.43.0


From cbace07c03cfb0c84520d3b404f7d4360321ffff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 53/55] fix: includes are found next to sources whose
 directory's name is not UTF-8

---
 src/source/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 797e586..d3d6629 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -51,6 +51,8 @@ pub struct SourceLines<B> {
     lines: Lines<B>,
     ln: LineNumber,
     source: Box<str>,
+    /// `source`, even if it isn't text
+    path: PathBuf,
     errors: Option<Error>,
 }
 
@@ -71,14 +73,16 @@ impl<B> SourceLines<B> {
 
 impl SourceLines<BufReader<File>> {
     pub fn new<P: AsRef<Path>>(path: P) -> Result<Self> {
-        let source = format!("{}", path.as_ref().display()).into_boxed_str();
+        let path = path.as_ref().to_path_buf();
+        let source = format!("{}", path.display()).into_boxed_str();
         let f =
-            File::open(path).map_err(|e| Error::new(source.clone(), 0, ErrorType::IoError(e)))?;
+            File::open(&path).map_err(|e| Error::new(source.clone(), 0, ErrorType::IoError(e)))?;
         let br = BufReader::new(f);
         Ok(SourceLines {
             lines: br.lines(),
             ln: 0,
             source,
+            path,
             errors: None,
         })
     }
@@ -144,6 +148,7 @@ impl<B: BufRead> SourceLines<B> {
             lines: r.lines(),
             ln: 0,
             source: "<input>".into(),
+            path: "<input>".into(),
             errors: None,
         }
     }
@@ -442,7 +447,7 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
     let mut state = ProcessState::new();
 
     let src = lines.source.clone();
-    state.including.extend(fs::canonicalize(&*src).ok());
+    state.including.extend(fs::canonicalize(&lines.path).ok());
 
     let mut errors = inner_process(lines, &mut state, &mut symbols);
 
@@ -541,6 +546,7 @@ fn inner_process<B: BufRead>(
 ) -> Option<Error> {
     fn inner_process_line(
         src: &str,
+        src_path: &Path,
         ln: u32,
         line: SourceLine,
         current_segment: &mut SegmentType,
@@ -636,7 +642,7 @@ fn inner_process<B: BufRead>(
                 let path = if let Some(path) = path.strip_prefix('/') {
                     Path::new(path)
                 } else {
-                    pth_buf = Path::new(&src).with_file_name("").join(&path);
+                    pth_buf = src_path.with_file_name("").join(&path);
                     &pth_buf
                 };
 
@@ -676,6 +682,7 @@ fn inner_process<B: BufRead>(
     while let Some((ln, line)) = lines.parse_next_line() {
         match inner_process_line(
             &lines.source,
+            &lines.path,
             ln,
             line,
             &mut current_segment,
-- 
2.43.0


From d2740bafced4163ed8b43bf3f95990f58e8e55c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:09 +0000
Subject: [PATCH 54/55] fix: t: report a raw binary that does not fit into ROM
 instead of panicking

---
 src/bin/t.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin/t.rs b/src/bin/t.rs
index 9f2dc7f..816b4ef 100644
--- a/src/bin/t.rs
+++ b/src/bin/t.rs
@@ -11,7 +11,7 @@ use telda2::{
     aalv::obj::{Object, SegmentType, SymbolDefinition, SymbolTable},
     blf4::{Blf4, TrapMode},
     machine::Machine,
-    mem::{LazyMain, StdIo},
+    mem::{LazyMain, StdIo, ROM_SIZE},
 };
 
 #[derive(Parser)]
@@ -37,6 +37,7 @@ struct Cli {
 enum Error {
     NoEntry,
     Trap(TrapMode),
+    TooLarge,
     IoError(io::Error),
 }
 
@@ -47,6 +48,7 @@ pub fn main() -> ExitCode {
             match e {
                 Error::NoEntry => eprintln!("no entry point in binary"),
                 Error::Trap(tm) => eprintln!("trapped with {tm:?}"),
+                Error::TooLarge => eprintln!("raw binary does not fit into ROM"),
                 Error::IoError(e) => eprintln!("unexpected io error occured: {e}"),
             }
             ExitCode::FAILURE
@@ -69,6 +71,9 @@ fn t_main() -> Result<(), Error> {
         let mut raw_binary_data = Vec::new();
         file.read_to_end(&mut raw_binary_data)
             .map_err(Error::IoError)?;
+        if raw_binary_data.len() > ROM_SIZE {
+            return Err(Error::TooLarge);
+        }
 
         machine.memory = machine.memory.with_rom(&raw_binary_data);
     } else {
-- 
2.43.0


From 2a19740a6e3faf944e58c0eda4ff28311ec6adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:24 +0000
Subject: [PATCH 55/55] fix: t: report the end of standard input instead of
 panicking

---
 src/mem.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mem.rs b/src/mem.rs
index c984f7b..00aaad6 100644
--- a/src/mem.rs
+++ b/src/mem.rs
@@ -1,4 +1,7 @@
-use std::io::{stdin, stdout, Read, Write};
+use std::{
+    io::{stdin, stdout, ErrorKind, Read, Write},
+    process::exit,
+};
 
 use crate::PAGE_SIZE_P;
 
@@ -106,8 +109,14 @@ impl Io for StdIo {
     fn read(&mut self, _addr: u8) -> u8 {
         // TODO: use the address
         let mut buf = [0];
-        stdin().read_exact(&mut buf).expect("stdin failed");
-        buf[0]
+        match stdin().read_exact(&mut buf) {
+            Ok(()) => buf[0],
+            Err(e) if e.kind() == ErrorKind::UnexpectedEof => {
+                eprintln!("program requested input, but there is no more");
+                exit(1)
+            }
+            Err(e) => panic!("stdin failed: {e}"),
+        }
     }
     fn write(&mut self, _addr: u8, val: u8) {
         stdout().write_all(&[val]).expect("stdout failed")
-- 
2.43.0

