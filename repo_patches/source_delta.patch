From 99610f70b1ac33634a4f2ee8c6dacfe00d7ff575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 1/4] fix: a halted processor left after EI or a prefix by the
 host wakes on interrupts again

---
 src/z80.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/z80.rs b/src/z80.rs
index 83f7e65..41f70fa 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -472,7 +472,7 @@ impl<Q: Flavour> Cpu for Z80<Q> {
         }
         if self.halt {
             tsc.add_m1(self.pc.get16());
-            self.inc_r();
+            self.halt_cycle_done();
             Ok(())
         }
         else {
@@ -491,18 +491,16 @@ impl<Q: Flavour> Cpu for Z80<Q> {
         const DEBUG: Option<CpuDebugFn> = None;
 
         if self.halt {
-            debug_assert_eq!(self.prefix, None);
-            debug_assert!(!self.last_ei);
             let pc = self.pc.get16();
             loop {
                 if tsc.is_past_limit(vc_limit) {
                     return Ok(());
                 }
-                if self.iff1 && control.is_irq(tsc.as_timestamp()) {
+                if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
                     break
                 }
                 tsc.add_m1(pc);
-                self.inc_r();
+                self.halt_cycle_done();
             }
         }
         else if tsc.is_past_limit(vc_limit) {
@@ -570,6 +568,17 @@ impl<Q: Flavour> Cpu for Z80<Q> {
 }
 
 impl<Q: Flavour> Z80<Q> {
+    /// Ends a single refresh cycle of the halted processor.
+    ///
+    /// The halted processor could have been left in the `EI` shadow or after a prefix by one of the host
+    /// methods. An executed cycle ends both, otherwise no interrupt would ever be accepted.
+    #[inline(always)]
+    fn halt_cycle_done(&mut self) {
+        self.inc_r();
+        self.last_ei = false;
+        self.prefix = None;
+    }
+
     #[inline(always)]
     fn execute_with_limit_loop<M, T>(&mut self, control: &mut M, tsc: &mut T, vc_limit: T::Limit) -> LoopExitReason<M::WrIoBreak, M::RetiBreak>
     where M: Memory<Timestamp=T::Timestamp> + Io<Timestamp=T::Timestamp>,
-- 
2.43.0


From 289a82fe9045945f1922f799becc89de070d30a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 2/4] fix: EI supplied as a Mode 0 interrupt response no longer
 hides a later interrupt in execute_with_limit

The instruction following such an EI was executed with last_ei still set, so the flag
survived it: a limited run ending there refused NMI and skipped an interrupt poll.
---
 src/z80.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/z80.rs b/src/z80.rs
index 41f70fa..bc0c2e7 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -586,6 +586,10 @@ impl<Q: Flavour> Z80<Q> {
     {
         const DEBUG: Option<CpuDebugFn> = None;
 
+        // an instruction is going to be executed without a prior irq check
+        // in case EI has been just executed as a Mode 0 interrupt response
+        self.last_ei = false;
+
         let mut prefix = self.prefix;
         let mut pc = Wrapping(self.pc.get16());
         let mut flags = self.get_flags();
-- 
2.43.0


From ea613ae36d2e528c7707cb84f130ff7c500ea858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:15 +0000
Subject: [PATCH 3/4] fix: snapshots of processors with a user-defined Flavour
 can be loaded back

Deserialize for Z80<Q> accepted any Q, but knew only the three built-in variants: in the
map form it loaded a Z80Any named by Q::tag() and in the sequence form it refused other tags.
---
 src/z80/serde.rs | 103 ++++++++++++++++-------------------------------
 1 file changed, 35 insertions(+), 68 deletions(-)

diff --git a/src/z80/serde.rs b/src/z80/serde.rs
index 02281e2..e300d12 100644
--- a/src/z80/serde.rs
+++ b/src/z80/serde.rs
@@ -14,7 +14,7 @@ use ::serde::{
     de::{self, Deserializer, Visitor, SeqAccess, MapAccess}
 };
 use crate::RegisterPair;
-use super::{Z80, NMOS, CMOS, BM1, Flavour, any::Z80Any};
+use super::{Z80, NMOS, Flavour, any::Z80Any};
 
 impl<Q: Flavour + Serialize> Serialize for Z80<Q> {
     fn serialize<S>(&self, serializer: S) -> core::result::Result<S::Ok, S::Error>
@@ -123,14 +123,14 @@ impl<'de, Q> Deserialize<'de> for Z80<Q>
                                      .ok_or_else(|| de::Error::invalid_length(0, &self))?;
                     match &*variant {
                         "NMOS"|"CMOS"|"BM1" => visit_seq(self, seq, 1),
+                        tag if tag == Q::tag() => visit_seq(self, seq, 1),
                         _ => Err(de::Error::unknown_variant(&variant, &["NMOS", "CMOS", "BM1"]))
                     }
                 }
             }
 
             fn visit_map<V: MapAccess<'de>>(self, map: V) -> Result<Z80<Q>, V::Error> {
-                let cpu_any = visit_map(map, Some(Q::tag()))?;
-                Ok(Q::unwrap_cpu_any(cpu_any))
+                visit_map(map).map(|(_, cpu)| cpu)
             }
         }
 
@@ -166,7 +166,13 @@ impl<'de> Deserialize<'de> for Z80Any {
             }
 
             fn visit_map<V: MapAccess<'de>>(self, map: V) -> Result<Z80Any, V::Error> {
-                visit_map(map, None)
+                let (variant, cpu) = visit_map::<V, NMOS>(map)?;
+                match &*variant.unwrap_or(DEFAULT_VARIANT) {
+                    "NMOS" => Ok(Z80Any::NMOS(cpu)),
+                    "CMOS" => Ok(Z80Any::CMOS(cpu.into_flavour())),
+                    "BM1"  => Ok(Z80Any::BM1(cpu.into_flavour())),
+                    v => Err(de::Error::unknown_variant(v, &["NMOS", "CMOS", "BM1"]))
+                }
             }
         }
 
@@ -231,10 +237,12 @@ macro_rules! check_dup_assign {
 
 const DEFAULT_VARIANT: Cow<'_, str> = Cow::Borrowed("NMOS");
 
-fn visit_map<'de, A>(mut map: A, force_variant: Option<&str>) -> Result<Z80Any, A::Error>
-    where A: MapAccess<'de>
+/// Returns the variant found in a map, if any, together with the processor.
+fn visit_map<'de, A, Q>(mut map: A) -> Result<(Option<Cow<'de, str>>, Z80<Q>), A::Error>
+    where A: MapAccess<'de>,
+          Q: Flavour + Deserialize<'de>
 {
-    let mut variant: Option<Cow<str>> = None;
+    let mut variant: Option<Cow<'de, str>> = None;
     let mut af       = None;
     let mut af_alt   = None;
     let mut regs     = None;
@@ -251,7 +259,7 @@ fn visit_map<'de, A>(mut map: A, force_variant: Option<&str>) -> Result<Z80Any,
     let mut halt     = None;
     let mut prefix   = None;
     let mut r        = None;
-    let mut flavour: Option<NMOS> = None;
+    let mut flavour: Option<Q> = None;
 
     while let Some(key) = map.next_key()? {
         match key {
@@ -292,66 +300,25 @@ fn visit_map<'de, A>(mut map: A, force_variant: Option<&str>) -> Result<Z80Any,
     let prefix   = prefix.ok_or_else(||     de::Error::missing_field("prefix"))?;
     let r        = r.unwrap_or_else(|| Wrapping(ir.get8lo()));
 
-    match &*force_variant.map(Cow::Borrowed).unwrap_or_else(|| variant.unwrap_or(DEFAULT_VARIANT)) {
-        "NMOS" => Ok(Z80Any::NMOS(Z80 {
-            af,
-            af_alt,
-            regs,
-            regs_alt,
-            index,
-            pc,
-            sp,
-            memptr,
-            last_ei,
-            ir,
-            im,
-            iff1,
-            iff2,
-            halt,
-            prefix,
-            r,
-            flavour: flavour.unwrap_or_default()
-        })),
-        "CMOS" => Ok(Z80Any::CMOS(Z80 {
-            af,
-            af_alt,
-            regs,
-            regs_alt,
-            index,
-            pc,
-            sp,
-            memptr,
-            last_ei,
-            ir,
-            im,
-            iff1,
-            iff2,
-            halt,
-            prefix,
-            r,
-            flavour: CMOS
-        })),
-        "BM1" => Ok(Z80Any::BM1(Z80 {
-            af,
-            af_alt,
-            regs,
-            regs_alt,
-            index,
-            pc,
-            sp,
-            memptr,
-            last_ei,
-            ir,
-            im,
-            iff1,
-            iff2,
-            halt,
-            prefix,
-            r,
-            flavour: flavour.map(BM1::from).unwrap_or_default()
-        })),
-        v => Err(de::Error::unknown_variant(v, &["NMOS", "CMOS", "BM1"]))
-    }
+    Ok((variant, Z80 {
+        af,
+        af_alt,
+        regs,
+        regs_alt,
+        index,
+        pc,
+        sp,
+        memptr,
+        last_ei,
+        ir,
+        im,
+        iff1,
+        iff2,
+        halt,
+        prefix,
+        r,
+        flavour: flavour.unwrap_or_default()
+    }))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 88024f4c7de75fae2aa39308ef11ca919d1ae145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:40 +0000
Subject: [PATCH 4/4] fix: load register pairs above 32767 from self-describing
 formats with signed integers

A format such as TOML or BSON hands every integer to visit_i64. A pair was
saved as 0..=65535, but only -32768..=32767 was accepted back, so a snapshot
with any register pair in the upper half could not be loaded.
---
 src/cpu/registers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/registers.rs b/src/cpu/registers.rs
index 288ec58..a3fc62c 100644
--- a/src/cpu/registers.rs
+++ b/src/cpu/registers.rs
@@ -232,8 +232,8 @@ impl<'de> Visitor<'de> for RegisterPairVisitor {
     }
 
     fn visit_i64<E: de::Error>(self, value: i64) -> Result<Self::Value, E> {
-        if value >= i64::from(std::i16::MIN) && value <= i64::from(std::i16::MAX) {
-            Ok(RegisterPair::from(value as i16))
+        if value >= i64::from(std::i16::MIN) && value <= i64::from(std::u16::MAX) {
+            Ok(RegisterPair::from(value as u16))
         } else {
             Err(E::custom(format!("RegisterPair out of range: {}", value)))
         }
-- 
2.43.0

