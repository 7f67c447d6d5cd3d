From 2bb2bbde8f00f30a762aa410e15f4618e4861978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 01/25] fix: ABConf lookups count the implicit empty component
 of entries starting with a delimiter

---
 crates/abe/src/abconf.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/abe/src/abconf.rs b/crates/abe/src/abconf.rs
index 348f1cc..20e24f2 100644
--- a/crates/abe/src/abconf.rs
+++ b/crates/abe/src/abconf.rs
@@ -57,11 +57,15 @@ impl ABConf {
         starts_with: &[&[u8]],
     ) -> Option<Result<Option<&[u8]>, &ABList>> {
         match &self.get_checked(starts_with).next()? {
-            Ok(lst) => match &lst[starts_with.len() - 1..] {
-                [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
-                [] => Some(Ok(None)),
-                _ => Some(Err(lst)),
-            },
+            Ok(lst) => {
+                // a leading ctr means iter_bytes starts with an empty component that is not in the list
+                let implicit_head = lst.first().map_or(false, |v| v.0.is_some()) as usize;
+                match &lst[starts_with.len().saturating_sub(implicit_head)..] {
+                    [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
+                    [] => Some(Ok(None)),
+                    _ => Some(Err(lst)),
+                }
+            }
             Err(v) => Some(Err(v)),
         }
     }
@@ -86,7 +90,7 @@ impl ABConf {
         starts_with: &'b [&[u8]],
     ) -> impl Iterator<Item = &'a ABList> + 'b {
         self.0.iter().rev().filter(move |a| {
-            if a.len() < starts_with.len() {
+            if a.iter_bytes().count() < starts_with.len() {
                 return false;
             }
             let ok = starts_with
-- 
2.43.0


From dfe1f2f7e4a1a948f929f1dfa8ac68548b7a28ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 02/25] fix: ABList::pop_front on an empty list returns None
 instead of panicking

---
 crates/abe/src/eval.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/abe/src/eval.rs b/crates/abe/src/eval.rs
index 9655a37..577c50b 100644
--- a/crates/abe/src/eval.rs
+++ b/crates/abe/src/eval.rs
@@ -270,7 +270,10 @@ impl ABList {
         self.0
     }
     pub fn pop_front(&mut self) -> Option<ABLV> {
-        self.0.splice(0..1, None).next()
+        if self.0.is_empty() {
+            return None;
+        }
+        Some(self.0.remove(0))
     }
 }
 pub type ApplyErr = anyhow::Error;
-- 
2.43.0


From e7374d86dbd8625a6aea8bc5da84233446c026e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 03/25] fix: padding to a length that can not be allocated is
 an error instead of a panic

---
 crates/abe/src/scope/bytes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 442da63..a143a54 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -54,7 +54,9 @@ impl EvalScopeImpl for BytesFE {
             if padb.len() != 1 {
                 return Err(anyhow!("pad byte should be a single byte"));
             };
-            let mut v = vec![padb[0]; len];
+            let mut v = Vec::new();
+            v.try_reserve_exact(len)?;
+            v.resize(len, padb[0]);
             if !left {
                 &mut v[0..bytes.len()]
             } else {
-- 
2.43.0


From a10bef39105eaa0f4ad15117c293a09fc4225e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 04/25] fix: replace with an empty pattern is an error instead
 of an infinite loop

---
 crates/abe/src/scope/bytes.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index a143a54..65e6e40 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -126,7 +126,10 @@ impl EvalScopeImpl for BytesFE {
         ])
     }
 }
-fn replace([mut b, from, to]: [&[u8]; 3]) -> Vec<u8> {
+fn replace([mut b, from, to]: [&[u8]; 3]) -> Result<Vec<u8>, ApplyErr> {
+    if from.is_empty() {
+        return Err(anyhow!("empty pattern"));
+    }
     let mut r = Vec::with_capacity(b.len());
     while let Some((h, rest)) = b.split_first() {
         match b.strip_prefix(from) {
@@ -140,7 +143,7 @@ fn replace([mut b, from, to]: [&[u8]; 3]) -> Vec<u8> {
             }
         }
     }
-    r
+    Ok(r)
 }
 
 /// python like slice indexing
-- 
2.43.0


From eb977922865eb7d8735d5601c549c376bade81d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 05/25] fix: slice indices beyond isize and steps past the end
 do not wrap or overflow

---
 crates/abe/src/scope/bytes.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 65e6e40..a0cc713 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -181,13 +181,14 @@ pub fn slice<'o, F>(
 
     let (sb, eb) = if step >= 0 { (0, len) } else { (len - 1, -1) };
 
+    let clamp_isize = |val: usize| isize::try_from(val).unwrap_or(isize::MAX);
     let to_bound = |v: Option<SignedInt>| -> Option<isize> {
         match v {
             Some(SignedInt { neg: false, val }) => {
-                Some((val as isize).clamp(sb.min(eb), sb.max(eb)))
+                Some(clamp_isize(val).clamp(sb.min(eb), sb.max(eb)))
             }
             Some(SignedInt { neg: true, val }) => {
-                Some((len - val as isize).clamp(sb.min(eb), sb.max(eb)))
+                Some((len - clamp_isize(val)).clamp(sb.min(eb), sb.max(eb)))
             }
             None => None,
         }
@@ -201,7 +202,7 @@ pub fn slice<'o, F>(
             return None;
         }
         let result = bytes.get(i as usize)?;
-        i += step;
+        i = i.saturating_add(step);
         Some(result)
     }))
 }
-- 
2.43.0


From ee8b9561ad94832e8bc6ec29a212fa3ebf5cda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 06/25] fix: adding or subtracting empty byte strings does not
 index out of bounds

---
 crates/abe/src/scope/uint.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/crates/abe/src/scope/uint.rs b/crates/abe/src/scope/uint.rs
index 2a7489c..2dacff5 100644
--- a/crates/abe/src/scope/uint.rs
+++ b/crates/abe/src/scope/uint.rs
@@ -16,30 +16,20 @@ where
 pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
-    loop {
+    for idx in (0..bytes.len()).rev() {
         let (ni, nc) = bytes[idx].carrying_add(val[idx], carry);
         bytes[idx] = ni;
         carry = nc;
-        if idx == 0 {
-            break;
-        }
-        idx -= 1;
     }
     carry
 }
 pub fn carry_sub_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
-    loop {
+    for idx in (0..bytes.len()).rev() {
         let (ni, nc) = bytes[idx].borrowing_sub(val[idx], carry);
         bytes[idx] = ni;
         carry = nc;
-        if idx == 0 {
-            break;
-        }
-        idx -= 1;
     }
     carry
 }
-- 
2.43.0


From eb194e7b73e51551e92683744928c9f894ea516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 07/25] fix: the b2 and b16 encoders give no value for bytes
 their text would not decode to

---
 crates/abe/src/scope/base.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/crates/abe/src/scope/base.rs b/crates/abe/src/scope/base.rs
index 88ba3a4..5af2d9b 100644
--- a/crates/abe/src/scope/base.rs
+++ b/crates/abe/src/scope/base.rs
@@ -32,22 +32,20 @@ fn enc_bin(bytes: &[u8], opts: &[ABE], radix: u32) -> ApplyResult<String> {
         return ApplyResult::NoValue;
     }
     use std::fmt::Write;
+    let mut st = String::with_capacity(bytes.len() * 8);
     match radix {
-        2 => {
-            let mut st = String::with_capacity(bytes.len() * 8);
-            bytes.iter().for_each(|b| {
-                let _ = write!(&mut st, "{b:08b}");
-            });
-            ApplyResult::Value(format!("[b{radix}:{st}]"))
-        }
-        16 => {
-            let mut st = String::with_capacity(bytes.len() * 2);
-            bytes.iter().for_each(|b| {
-                let _ = write!(&mut st, "{b:02X}");
-            });
-            ApplyResult::Value(format!("[b{radix}:{st}]"))
-        }
-        _ => ApplyResult::Err(anyhow::anyhow!("fixme: radix supported")),
+        2 => bytes.iter().for_each(|b| {
+            let _ = write!(&mut st, "{b:08b}");
+        }),
+        16 => bytes.iter().for_each(|b| {
+            let _ = write!(&mut st, "{b:02X}");
+        }),
+        _ => return ApplyResult::Err(anyhow::anyhow!("fixme: radix supported")),
+    }
+    // numbers can not express every byte sequence (leading nulls, empty, more than 16 bytes)
+    match bin(&[st.as_bytes()], radix) {
+        Ok(v) if v == bytes => ApplyResult::Value(format!("[b{radix}:{st}]")),
+        _ => ApplyResult::NoValue,
     }
 }
 
-- 
2.43.0


From 1d5c8e7f083eaf2eda00f6518a3475cc7b3b0438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 08/25] fix: AB::write_abe put the escaped text as the literal,
 escaping it twice

---
 crates/byte-fmt/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/byte-fmt/src/lib.rs b/crates/byte-fmt/src/lib.rs
index c7a5042..d561d86 100644
--- a/crates/byte-fmt/src/lib.rs
+++ b/crates/byte-fmt/src/lib.rs
@@ -159,12 +159,10 @@ where
     fn write_abe(&self, out: &mut dyn FnMut(ABE)) {
         let (max_padded, bytes) = self.x_prefix_cut();
         let mode = if max_padded { MAX_STR } else { "a" };
-        let st = abe::abtxt::as_abtxt(bytes);
-        let st: &str = st.borrow();
         if self.as_ref().len() == 16 {
-            abe::abe!({ mode : st  }).for_each(out)
+            abe::abe!({ mode : bytes  }).for_each(out)
         } else {
-            abe::abe!({ mode : st : (self.as_ref().len().to_string()) }).for_each(out)
+            abe::abe!({ mode : bytes : (self.as_ref().len().to_string()) }).for_each(out)
         }
     }
     fn to_abe_str(&self) -> String {
-- 
2.43.0


From 844115721a26667335f240108d29283f7eeadaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 09/25] fix: a missing '/' was reported as a missing ':'

---
 crates/abe/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/abe/src/ast.rs b/crates/abe/src/ast.rs
index 3b33bbd..7ff76ba 100644
--- a/crates/abe/src/ast.rs
+++ b/crates/abe/src/ast.rs
@@ -238,7 +238,7 @@ pub fn is_colon(a: &ABE) -> VResult<()> {
 pub fn is_fslash(a: &ABE) -> VResult<()> {
     match a {
         ABE::Ctr(Ctr::FSlash) => Ok(()),
-        _ => ME::ExpectedColon.atp_v(a),
+        _ => ME::ExpectedFSlash.atp_v(a),
     }
 }
 pub fn multi_ctr_expr(mut a: &[ABE], as_ctr: fn(&ABE) -> VResult<()>) -> (Vec<Expr>, &[ABE]) {
-- 
2.43.0


From a6643ecccbaf53161b61f775bfc9e07b49b53f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 10/25] fix: replace_abe panicked on an empty pattern

---
 crates/abe/src/ast.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/abe/src/ast.rs b/crates/abe/src/ast.rs
index 7ff76ba..4ce1639 100644
--- a/crates/abe/src/ast.rs
+++ b/crates/abe/src/ast.rs
@@ -629,6 +629,10 @@ pub fn print_abe<B: std::borrow::Borrow<ABE>>(v: impl IntoIterator<Item = B>) ->
 
 /// replace occurances of pattern with new. Checked depth first with no overlap
 pub fn replace_abe(inp: &mut Vec<ABE>, pattern: &[ABE], new: &[ABE]) {
+    // the empty pattern occurs nowhere
+    if pattern.is_empty() {
+        return;
+    }
     for el in inp.iter_mut() {
         if let ABE::Expr(Expr::Lst(ref mut lst)) = el {
             replace_abe(lst, pattern, new)
-- 
2.43.0


From 21e4313876bdad72f38faf0e3340261f3b6b086b Mon Sep 17 00:00:00 2001
From: a <a>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 11/25] verification hook: atomics of the bus as scheduling
 points (cfg linkspace_verif)

---
 crates/ipcbus/src/lib.rs         | 58 ++++++++++++++++++++++++++++++++
 crates/ipcbus/src/udp_procbus.rs | 10 +++---
 2 files changed, 64 insertions(+), 4 deletions(-)

diff --git a/crates/ipcbus/src/lib.rs b/crates/ipcbus/src/lib.rs
index 6c695a1..99ffc62 100644
--- a/crates/ipcbus/src/lib.rs
+++ b/crates/ipcbus/src/lib.rs
@@ -21,3 +21,61 @@ pub use udp_procbus::*;
 pub mod wasmbus;
 #[cfg(target_arch = "wasm32")]
 pub use wasmbus::*;
+
+/// Verification builds only (`--cfg linkspace_verif`): every atomic operation is a scheduling point.
+#[cfg(linkspace_verif)]
+pub mod verif_hook {
+    use std::sync::atomic::Ordering;
+    extern "Rust" {
+        /// other threads may run here
+        fn linkspace_verif_point();
+        /// does a weak exchange fail although the value matches?
+        fn linkspace_verif_weak() -> bool;
+    }
+    #[derive(Debug, Default)]
+    pub struct AtomicU64(std::sync::atomic::AtomicU64);
+    impl AtomicU64 {
+        pub const fn new(v: u64) -> Self {
+            AtomicU64(std::sync::atomic::AtomicU64::new(v))
+        }
+        fn at(&self) -> &std::sync::atomic::AtomicU64 {
+            unsafe { linkspace_verif_point() };
+            &self.0
+        }
+        pub fn load(&self, o: Ordering) -> u64 {
+            self.at().load(o)
+        }
+        pub fn store(&self, v: u64, o: Ordering) {
+            self.at().store(v, o)
+        }
+        pub fn swap(&self, v: u64, o: Ordering) -> u64 {
+            self.at().swap(v, o)
+        }
+        pub fn fetch_max(&self, v: u64, o: Ordering) -> u64 {
+            self.at().fetch_max(v, o)
+        }
+        pub fn fetch_add(&self, v: u64, o: Ordering) -> u64 {
+            self.at().fetch_add(v, o)
+        }
+        pub fn compare_exchange(&self, a: u64, b: u64, s: Ordering, f: Ordering) -> Result<u64, u64> {
+            self.at().compare_exchange(a, b, s, f)
+        }
+        pub fn compare_exchange_weak(&self, a: u64, b: u64, s: Ordering, f: Ordering) -> Result<u64, u64> {
+            let x = self.at();
+            if unsafe { linkspace_verif_weak() } {
+                return Err(x.load(f));
+            }
+            x.compare_exchange(a, b, s, f)
+        }
+        pub fn fetch_update(&self, s: Ordering, f: Ordering, mut g: impl FnMut(u64) -> Option<u64>) -> Result<u64, u64> {
+            let mut old = self.load(f);
+            while let Some(new) = g(old) {
+                match self.compare_exchange_weak(old, new, s, f) {
+                    Ok(x) => return Ok(x),
+                    Err(x) => old = x,
+                }
+            }
+            Err(old)
+        }
+    }
+}
diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index daaba3f..85bd8b1 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -5,14 +5,16 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 use std::{
     path::Path,
-    sync::{
-        atomic::{AtomicU64, Ordering},
-        Arc,
-    },
+    sync::{atomic::Ordering, Arc},
     thread::JoinHandle,
     time::Instant,
 };
 
+#[cfg(linkspace_verif)]
+use crate::verif_hook::AtomicU64;
+#[cfg(not(linkspace_verif))]
+use std::sync::atomic::AtomicU64;
+
 pub use crate::udp_multicast::UdpIPC;
 pub use event_listener;
 use event_listener::{Event, EventListener};
-- 
2.43.0


From 4e5bace0760b4dd1107a3a280b794fb9563bf1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 12/25] fix: a process dying while it wrote the port map lost
 or misaligned the ports handed out

---
 crates/ipcbus/src/udp_procbus.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index 85bd8b1..9f157ea 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -4,6 +4,7 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 use std::{
+    io::Write,
     path::Path,
     sync::{atomic::Ordering, Arc},
     thread::JoinHandle,
@@ -27,7 +28,7 @@ pub fn get_port(bus_id: u64) -> std::io::Result<u16> {
     })?;
     lockfile.lock_with_pid().unwrap();
     let path = std::env::temp_dir().join("procbus.map");
-    let mut bytes = match std::fs::read(&path) {
+    let bytes = match std::fs::read(&path) {
         Ok(v) => v,
         Err(e) => {
             if e.kind() == std::io::ErrorKind::NotFound {
@@ -45,10 +46,21 @@ pub fn get_port(bus_id: u64) -> std::io::Result<u16> {
             return Ok(saved_port);
         };
     }
-    bytes.extend(bus_id.to_ne_bytes());
     new_port = new_port.saturating_add(1);
-    bytes.extend(new_port.to_ne_bytes());
-    std::fs::write(&path, bytes).unwrap();
+    let mut entry = bus_id.to_ne_bytes().to_vec();
+    entry.extend(new_port.to_ne_bytes());
+    // Only ever append - a process dying here must not lose the ports already handed out.
+    let mut file = std::fs::OpenOptions::new()
+        .create(true)
+        .append(true)
+        .open(&path)
+        .unwrap();
+    let partial = bytes.len() % 10;
+    if partial != 0 {
+        // left by a process that died while appending
+        file.set_len((bytes.len() - partial) as u64).unwrap();
+    }
+    file.write_all(&entry).unwrap();
     lockfile.unlock().unwrap();
     Ok(new_port)
 }
-- 
2.43.0


From 4815ff5b95cae86376c020f69e24e792d96c5d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 13/25] fix: a malformed datagram ended the bus listener

---
 crates/ipcbus/src/udp_procbus.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index 9f157ea..45e21ea 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -140,6 +140,10 @@ impl ProcBus {
         self.0.listener.get_or_init(move || {
             let this = ProcBus(self.0.clone());
             self.0.udp.rx_thread(move |b| {
+                if b.len() != 20 {
+                    tracing::error!(len = b.len(), "Malformed bus message");
+                    return;
+                }
                 let (busid, rest) = b.split_at(8);
                 let busid = u64::from_ne_bytes(busid.try_into().unwrap());
                 if busid != this.0.bus_id {
-- 
2.43.0


From c2e5f2e93f0b762fc96e2818932effad7a1463e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 14/25] fix: an interrupted receive ended the bus listener

---
 crates/ipcbus/src/udp_multicast.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ipcbus/src/udp_multicast.rs b/crates/ipcbus/src/udp_multicast.rs
index d3ab364..1d339c7 100644
--- a/crates/ipcbus/src/udp_multicast.rs
+++ b/crates/ipcbus/src/udp_multicast.rs
@@ -51,7 +51,11 @@ fn recv(socket: Arc<Socket>, mut tx: impl FnMut(&[u8])) -> std::io::Result<()> {
     let align = buf.as_ptr().align_offset(4);
     let buf = &mut buf[align..];
     loop {
-        let (l, a) = socket.recv_from(buf)?;
+        let (l, a) = match socket.recv_from(buf) {
+            Ok(v) => v,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e),
+        };
         if !a.as_socket_ipv4().unwrap().ip().is_loopback() {
             continue;
         }
-- 
2.43.0


From 4ba3da9cd82a5aeff16f41d08d8e954dd4fe76da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 15/25] fix: a point shorter than its header was accepted

---
 crates/pkt/src/point.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/pkt/src/point.rs b/crates/pkt/src/point.rs
index 2769730..cf66618 100644
--- a/crates/pkt/src/point.rs
+++ b/crates/pkt/src/point.rs
@@ -67,6 +67,9 @@ impl PointHeader {
         if self.reserved != 0 {
             return Err(Error::HeaderReservedSet(self.reserved));
         }
+        if (self.upoint_size() as usize) < size_of::<PointHeader>() {
+            return Err(Error::ContentLen);
+        }
         let len = self.ucontent_size() as usize;
         if len > MAX_CONTENT_SIZE {
             return Err(Error::ContentLen);
-- 
2.43.0


From f6601737b1061b335ad81817d8a16619caffded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 16/25] fix: a malformed space in a received packet panicked

---
 crates/pkt/src/point_ptr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/pkt/src/point_ptr.rs b/crates/pkt/src/point_ptr.rs
index f182c6c..3d518ae 100644
--- a/crates/pkt/src/point_ptr.rs
+++ b/crates/pkt/src/point_ptr.rs
@@ -165,7 +165,8 @@ impl PointThinPtr {
                 if link_size % u16::try_from(size_of::<Link>()).unwrap() != 0 {
                     return Err(Error::IndivisableLinkbytes);
                 }
-                unsafe { self.unchecked_tail() }.rspace.check_components()?;
+                let rspace = &self.pkt_bytes()[isp_offset.into()..data_offset.into()];
+                RootedSpace::from(rspace)?;
                 padding
             }
             BarePointFields::Error { padding, .. } => padding,
-- 
2.43.0


From 801e67f1dd768fa91ca4bc057aaefe4130f34ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 17/25] fix: byte_segments of a rerouted packet lost a segment
 or panicked

---
 crates/pkt/src/byte_segments.rs  | 20 ++++++++++++--------
 crates/pkt/src/netpkt/reroute.rs |  8 +++++++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/pkt/src/byte_segments.rs b/crates/pkt/src/byte_segments.rs
index fb5fa7b..232919c 100644
--- a/crates/pkt/src/byte_segments.rs
+++ b/crates/pkt/src/byte_segments.rs
@@ -6,7 +6,7 @@
 Utility to create packets from multiple byte slices without allocating.
 **/
 #[derive(Clone, Debug)]
-pub struct ByteSegments<'a>(pub(crate) [&'a [u8]; 8]);
+pub struct ByteSegments<'a>(pub(crate) [&'a [u8]; 9]);
 
 impl<'a> ExactSizeIterator for ByteSegments<'a> {
     #[inline(always)]
@@ -16,7 +16,7 @@ impl<'a> ExactSizeIterator for ByteSegments<'a> {
     }
     #[inline]
     fn is_empty(&self) -> bool {
-        self.0 == [&[] as &[u8]; 8]
+        self.0 == [&[] as &[u8]; 9]
     }
 }
 
@@ -62,6 +62,10 @@ impl<'a> Iterator for ByteSegments<'a> {
             self.0[7] = tail;
             return Some(*h);
         }
+        if let Some((h, tail)) = self.0[8].split_first() {
+            self.0[8] = tail;
+            return Some(*h);
+        }
         None
     }
 }
@@ -79,7 +83,7 @@ impl<'a> ByteSegments<'a> {
     #[inline(always)]
     pub const fn from_array<const N: usize>(segments: [&'a [u8]; N]) -> Self {
         assert!(N < 8, "not supported");
-        let mut r: [&'a [u8]; 8] = [&[]; 8];
+        let mut r: [&'a [u8]; 9] = [&[]; 9];
         let mut i = 0;
         while i < N {
             r[i] = segments[i];
@@ -95,12 +99,12 @@ impl<'a> ByteSegments<'a> {
     #[must_use]
     #[inline(always)]
     pub(crate) fn push_front(self, head: &'a [u8]) -> Self {
-        let [a, b, c, d, e, f, g, h] = self.0;
+        let [a, b, c, d, e, f, g, h, i] = self.0;
         debug_assert!(
-            h.is_empty(),
+            i.is_empty(),
             "segmented packet construction stacked to deep"
         );
-        ByteSegments([head, a, b, c, d, e, f, g])
+        ByteSegments([head, a, b, c, d, e, f, g, h])
     }
     #[inline]
     pub fn to_bytes(self) -> Box<[u8]> {
@@ -113,7 +117,7 @@ impl<'a> ByteSegments<'a> {
     #[inline(always)]
     pub const unsafe fn write_segments_unchecked(self, mut dest: *mut u8) -> *mut u8 {
         let mut i = 0;
-        while i < 8 {
+        while i < 9 {
             let len = self.0[i].len();
             if len > 0 {
                 core::ptr::copy_nonoverlapping(self.0[i].as_ptr(), dest, len);
@@ -124,7 +128,7 @@ impl<'a> ByteSegments<'a> {
         dest
     }
     #[inline(always)]
-    pub fn io_slices(self) -> [std::io::IoSlice<'a>; 8] {
+    pub fn io_slices(self) -> [std::io::IoSlice<'a>; 9] {
         self.0.map(std::io::IoSlice::new)
     }
     #[inline(always)]
diff --git a/crates/pkt/src/netpkt/reroute.rs b/crates/pkt/src/netpkt/reroute.rs
index 7fb3d30..2d25cae 100644
--- a/crates/pkt/src/netpkt/reroute.rs
+++ b/crates/pkt/src/netpkt/reroute.rs
@@ -44,7 +44,13 @@ impl<T: NetPkt + ?Sized> NetPkt for ReroutePkt<T> {
     }
     fn byte_segments(&self) -> ByteSegments {
         let mut segm = self.pkt.byte_segments();
-        segm.0[0] = &segm.0[0][size_of::<NetPktHeader>()..];
+        let rest = &segm.0[0][size_of::<NetPktHeader>()..];
+        if rest.is_empty() {
+            // the inner pkt has the header as its own segment
+            segm.0[0] = self.net_header.as_bytes();
+            return segm;
+        }
+        segm.0[0] = rest;
         segm.push_front(self.net_header.as_bytes())
     }
     fn as_netbox(&self) -> crate::NetPktBox {
-- 
2.43.0


From 6318adfe01a5c1a1abd8330249e52da30fb2a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 18/25] fix: packet boxes were freed with another layout than
 they were allocated with

---
 crates/pkt/src/netpkt/netpkt_ptr.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/pkt/src/netpkt/netpkt_ptr.rs b/crates/pkt/src/netpkt/netpkt_ptr.rs
index 7483735..3fcc72f 100644
--- a/crates/pkt/src/netpkt/netpkt_ptr.rs
+++ b/crates/pkt/src/netpkt/netpkt_ptr.rs
@@ -213,9 +213,10 @@ pub fn netpktbox_layout(
     pkt_header: &PointHeader,
 ) -> (std::alloc::Layout, <NetPktFatPtr as ptr::Pointee>::Metadata) {
     use std::alloc::Layout;
-    let clen: usize = pkt_header.padded_content_size().div_ceil(8).into();
+    // must be the layout of the NetPktFatPtr with this metadata, it is used to dealloc the box.
+    let clen: usize = pkt_header.padded_content_size().into();
     let layout = Layout::new::<PartialNetHeader>()
-        .extend(Layout::new::<u64>().repeat(clen).unwrap().0)
+        .extend(Layout::array::<u8>(clen).unwrap())
         .unwrap()
         .0
         .pad_to_align();
-- 
2.43.0


From 6d74eb8deaae2d7c12120282dd217edce7dba1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 19/25] fix: a rooted space of 8 components was accepted with
 any depth byte

---
 crates/pkt/src/rooted_space.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/pkt/src/rooted_space.rs b/crates/pkt/src/rooted_space.rs
index 84a622e..e210cd9 100644
--- a/crates/pkt/src/rooted_space.rs
+++ b/crates/pkt/src/rooted_space.rs
@@ -231,6 +231,10 @@ impl RootedSpace {
             }
             i += 1;
         }
+        if len != 8 {
+            // with 8 components there is no end to compare the depth with
+            return Err(SpaceError::EmptyComponentIdx);
+        }
         Ok(())
     }
 
-- 
2.43.0


From 138a7e1382c86ac7bbfa3205e1723bf3a7843f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 20/25] fix: [si] panicked on an index out of range

---
 crates/pkt/src/space_fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/pkt/src/space_fmt.rs b/crates/pkt/src/space_fmt.rs
index 3784f2c..bdb1357 100644
--- a/crates/pkt/src/space_fmt.rs
+++ b/crates/pkt/src/space_fmt.rs
@@ -316,8 +316,8 @@ impl EvalScopeImpl for SpaceFE {
                 .get(2)
                 .map(|i| parse_b::<usize>(i))
                 .transpose()?
-                .unwrap_or(start + 1)
-                .max(9);
+                .unwrap_or(start.saturating_add(1))
+                .min(MAX_SPACE_DEPTH);
             ensure!(start <= 8, "space max depth is 8");
             ensure!(end >= start, "end < start");
             Ok(start..end)
-- 
2.43.0


From 0d5f14e52daf2adda0d9c71a7fd414fdac61240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 21/25] fix: the free space of a signed packet ignored the
 linkpoint header

---
 crates/pkt/src/consts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pkt/src/consts.rs b/crates/pkt/src/consts.rs
index 278179c..dd6940c 100644
--- a/crates/pkt/src/consts.rs
+++ b/crates/pkt/src/consts.rs
@@ -17,7 +17,7 @@ pub const MAX_CONTENT_SIZE: usize = MAX_POINT_SIZE - size_of::<PointHeader>();
 
 pub const MAX_DATA_SIZE: usize = MAX_CONTENT_SIZE;
 pub const MAX_LINKPOINT_DATA_SIZE: usize = MAX_CONTENT_SIZE - size_of::<LinkPointHeader>();
-pub const MAX_KEYPOINT_DATA_SIZE: usize = MAX_CONTENT_SIZE - size_of::<Signed>();
+pub const MAX_KEYPOINT_DATA_SIZE: usize = MAX_LINKPOINT_DATA_SIZE - size_of::<Signed>();
 pub const MAX_LINKS_LEN: usize = (MAX_POINT_SIZE - MAX_SPACENAME_SIZE) / size_of::<Link>();
 pub const MAX_SPACENAME_SIZE: usize = 242;
 pub const MAX_ROOTED_SPACENAME_SIZE: usize = MAX_SPACENAME_SIZE + 8;
-- 
2.43.0


From 43537509e3bcfff721790668c8f5e26bb65c3519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 22/25] fix: TreeKey::from accepted keys too short to hold a
 public key

---
 crates/pkt/src/netpkt/tree_order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pkt/src/netpkt/tree_order.rs b/crates/pkt/src/netpkt/tree_order.rs
index 9478d1d..f07d4de 100644
--- a/crates/pkt/src/netpkt/tree_order.rs
+++ b/crates/pkt/src/netpkt/tree_order.rs
@@ -132,7 +132,7 @@ pub struct KeyFixedHead {
 }
 impl TreeKey {
     pub fn from(b: &[u8]) -> Option<Self> {
-        const MIN_LEN: usize = size_of::<KeyFixedHead>() + 1;
+        const MIN_LEN: usize = size_of::<KeyFixedHead>() + size_of::<PubKey>();
         if b.len() < MIN_LEN {
             println!("Invalid treekey? {:?} {} <  {}", b, b.len(), MIN_LEN);
             None
-- 
2.43.0


From 39229af7ffde04dd43a74c35892f22be39ae81db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 23/25] fix: checked stamp arithmetic saturated

---
 crates/pkt/src/stamp.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/pkt/src/stamp.rs b/crates/pkt/src/stamp.rs
index 154170a..2b4d473 100644
--- a/crates/pkt/src/stamp.rs
+++ b/crates/pkt/src/stamp.rs
@@ -59,8 +59,7 @@ pub fn stamp_add(stamp: Stamp, dur: Duration) -> Stamp {
     Stamp::new(stamp.get().saturating_add(plus))
 }
 pub fn checked_stamp_add(stamp: Stamp, dur: Duration) -> Option<Stamp> {
-    let plus = dur.as_micros().min(u64::MAX.into());
-    let plus = unsafe { u64::try_from(plus).unwrap_unchecked() };
+    let plus = u64::try_from(dur.as_micros()).ok()?;
     stamp.get().checked_add(plus).map(Stamp::new)
 }
 /// saturating sub
@@ -70,8 +69,7 @@ pub fn stamp_sub(stamp: Stamp, dur: Duration) -> Stamp {
     Stamp::new(stamp.get().saturating_sub(sub))
 }
 pub fn checked_stamp_sub(stamp: Stamp, dur: Duration) -> Option<Stamp> {
-    let sub = dur.as_micros().min(u64::MAX.into());
-    let sub = unsafe { u64::try_from(sub).unwrap_unchecked() };
+    let sub = u64::try_from(dur.as_micros()).ok()?;
     stamp.get().checked_sub(sub).map(Stamp::new)
 }
 #[cfg(target_arch = "wasm32")]
-- 
2.43.0


From 480555c81bac93368364df21f230a61734b9f89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 24/25] fix: SpaceBuf::components failed on every non-empty
 space

---
 crates/pkt/src/space.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index a193cb5..fccabef 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -232,13 +232,7 @@ impl SpaceBuf {
     }
 
     pub fn components(&self) -> Result<Vec<Vec<u8>>, SpaceError> {
-        let iter = self.as_ref().iter();
-        let res = iter.map(Vec::from).collect();
-        if iter.space.inner_bytes.is_empty() {
-            Ok(res)
-        } else {
-            Err(SpaceError::TailLength)
-        }
+        self.checked_iter()?.map(|c| c.map(Vec::from)).collect()
     }
     /// Panics if the component is larger then 250 bytes;
     pub fn push(self, s: impl AsRef<[u8]>) -> Self {
-- 
2.43.0


From cd0ac29c24e279ff063c4ad1d2096a3ae79b4805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 25/25] fix: rooting a space of more than 8 components dropped
 components

---
 crates/pkt/src/space.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index fccabef..54bad94 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -706,6 +706,9 @@ impl Space {
                 count += 1;
             }
         }
+        if it.next().is_some() {
+            return Err(SpaceError::MaxDepth);
+        }
         data[0] = count;
         let v = RootedSpaceBuf::from_unchecked(data);
         debug_assert!(
-- 
2.43.0

