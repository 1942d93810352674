From 388de1cf9ba48c40ec5c351167ad7fd4ec5cd0ba Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 1/8] fix: clear mcause interrupt bit on synchronous exceptions

Once an external interrupt had been taken, the exception router's latched
interrupt flag was never cleared, so every later synchronous exception was
reported in MCAUSE with bit 31 set.
---
 src/sentinel/exception.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sentinel/exception.py b/src/sentinel/exception.py
index a875ae6..4d21add 100644
--- a/src/sentinel/exception.py
+++ b/src/sentinel/exception.py
@@ -232,7 +232,10 @@ class ExceptionRouter(Component):
         with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
             with m.If(self.src.decode.valid):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(self.src.decode.e_type)
+                m.d.sync += [
+                    mcause_latch.cause.eq(self.src.decode.e_type),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
             with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                       self.src.csr.mie.meie):
@@ -248,8 +251,10 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(
-                    MCause.Cause.STORE_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.STORE_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_LOAD_ADR):
             with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                         self.src.alu_lo[0] == 1)) |
@@ -257,10 +262,16 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_JAL):
             with m.If(self.src.alu_lo[1] == 1):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
         return m
-- 
2.43.0


From 6d9e83fd0966189c7fea082b6363bf7036b03467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 2/8] fix: report compressed-looking ECALL words as illegal
 instructions

A word that differs from ECALL only in its lowest two bits raised an
exception with the ECALL cause instead of illegal instruction.
---
 src/sentinel/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/decode.py b/src/sentinel/decode.py
index cec058c..0cad555 100644
--- a/src/sentinel/decode.py
+++ b/src/sentinel/decode.py
@@ -395,7 +395,10 @@ class ExceptionControl(Component):
 
             # Catch-all for compressed insns, zero insn.
             with m.If(self.insn[0:2] != 0b11):
-                m.d.sync += self.exception.valid.eq(1)
+                m.d.sync += [
+                    self.exception.valid.eq(1),
+                    self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN)
+                ]
 
         # Second decode cycle if this is a CSR access.
         with m.If(forward_csr):
-- 
2.43.0


From eefb27fb85b572b0e157fba99120012e784c9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 3/8] fix: place microcode fields correctly around gaps

Only one gap between fields was representable (every padding member had the
same name), and unused low bits were not padded at all, so the fields were read
from the wrong bits of the microcode word.
---
 src/sentinel/ucoderom.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index fc133b3..46e2bb7 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -259,6 +259,12 @@ class UCodeROM(Component):
         next(n, None)
         curr_next_pairs = zip_longest(c, n, fillvalue=(None, None))
 
+        # The lowest field need not start at bit 0.
+        first_f = next(iter(space.fields.values()))
+        if first_f.origin != 0:
+            layout[f"_padding_{padding_id}"] = unsigned(first_f.origin)
+            padding_id += 1
+
         for (curr_n, curr_f), (_, next_f) in curr_next_pairs:
             # bools in m5meta are internally enums, but we'll do just fine with
             # unsigned(1).
@@ -271,6 +277,7 @@ class UCodeROM(Component):
             if next_f and curr_f.origin + curr_f.width != next_f.origin:
                 layout[f"_padding_{padding_id}"] = \
                     unsigned(next_f.origin - (curr_f.origin + curr_f.width))
+                padding_id += 1
 
         self.field_layout = StructLayout(layout)
 
-- 
2.43.0


From 5daa53cbb8c83a8124db9755e968e4e74784c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 4/8] fix: reject microcode fields declared without the
 hardware's enum

A plain or bool field of the right width was accepted in place of an enum, and
the enum's symbols then assembled to 0 without any error.
---
 src/sentinel/ucoderom.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index 46e2bb7..6b949d3 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -1,5 +1,6 @@
 """Microcode ROM assembly and Component."""
 
+from enum import EnumMeta
 from io import IOBase
 from pathlib import Path
 from itertools import tee, zip_longest
@@ -287,6 +288,13 @@ class UCodeROM(Component):
         except KeyError as e:
             raise ValueError(f"{e.args[0]} was not in field_map") from e
 
+        # Symbolic values of a field that does not declare them silently
+        # assemble to 0.
+        if isinstance(ss_class, EnumMeta):
+            raise ValueError(f"{ss_class} in Amaranth source and field {field}"
+                             " in microcode source are not compatible; the "
+                             "microcode field must be an enum.")
+
         ss_width = Shape.cast(ss_class).width
         f_width = field.width
         if ss_width != f_width:
-- 
2.43.0


From a5f85decda382ca23bdbabb7a7d9658f20b1c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 5/8] fix: reject microcode words too narrow for their fields

Fields beyond the width of the address space were silently truncated.
---
 src/sentinel/ucoderom.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index 6b949d3..31b3c6b 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -281,6 +281,10 @@ class UCodeROM(Component):
                 padding_id += 1
 
         self.field_layout = StructLayout(layout)
+        if self.field_layout.size > space.width:
+            raise ValueError("microcode fields need "
+                             f"{self.field_layout.size} bits, but the address "
+                             f"space is only {space.width} bits wide")
 
     def _check_and_convert_dynamic_shape(self, field):
         try:
-- 
2.43.0


From 0549a81714dcefce1053ab7a540462e1ba13d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:58 +0000
Subject: [PATCH 6/8] fix: RVFI reported a write to rd for instructions that
 trap

---
 src/sentinel/formal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/formal.py b/src/sentinel/formal.py
index f45ab2f..67b164a 100644
--- a/src/sentinel/formal.py
+++ b/src/sentinel/formal.py
@@ -378,8 +378,12 @@ class FormalTop(Component):
 
         # Will be reset every time we commit to a new insn. But should be
         # overridden if there's an exception during the commit cycle.
+        # An insn that traps also writes no rd register.
         with m.If(self.cpu.rvfi.exception):
-            m.d.sync += self.rvfi.trap.eq(1)
+            m.d.sync += [
+                self.rvfi.trap.eq(1),
+                self.rvfi.rd_addr.eq(0),
+            ]
 
         # Non-insn memory accesses.
         with m.If(~self.cpu.control.mem.insn_fetch & self.cpu.control.mem.req &
-- 
2.43.0


From 72281eb20a3cfe0ded0599c8618b2c0b942aace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:58 +0000
Subject: [PATCH 7/8] fix: WBTimer could clear a tick that its IRQ register
 read did not return

---
 examples/attosoc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/attosoc.py b/examples/attosoc.py
index 944bf51..ba15c78 100644
--- a/examples/attosoc.py
+++ b/examples/attosoc.py
@@ -371,7 +371,8 @@ class WBTimer(Component):
         m.d.sync += prescalar.eq(prescalar + 1)
         m.d.comb += self.irq.eq(prescalar[14])
 
-        with m.If(self.bus.stb & self.bus.cyc & ~self.bus.we):
+        with m.If(self.bus.stb & self.bus.cyc & ~self.bus.we &
+                  ~self.bus.ack):
             with m.If(self.bus.sel[0] == 1):
                 m.d.sync += self.bus.dat_r.eq(self.irq)
 
-- 
2.43.0


From 30fcf69f1117be7569e02a9997d39e2adfaec7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:21 +0000
Subject: [PATCH 8/8] Revert "fix: WBTimer could clear a tick that its IRQ
 register read did not return"

This reverts commit 72281eb20a3cfe0ded0599c8618b2c0b942aace1.
---
 examples/attosoc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/examples/attosoc.py b/examples/attosoc.py
index ba15c78..944bf51 100644
--- a/examples/attosoc.py
+++ b/examples/attosoc.py
@@ -371,8 +371,7 @@ class WBTimer(Component):
         m.d.sync += prescalar.eq(prescalar + 1)
         m.d.comb += self.irq.eq(prescalar[14])
 
-        with m.If(self.bus.stb & self.bus.cyc & ~self.bus.we &
-                  ~self.bus.ack):
+        with m.If(self.bus.stb & self.bus.cyc & ~self.bus.we):
             with m.If(self.bus.sel[0] == 1):
                 m.d.sync += self.bus.dat_r.eq(self.irq)
 
-- 
2.43.0

