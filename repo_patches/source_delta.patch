From d25ade84b3ae245e6fb4b0795c506506cd30dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:08 +0000
Subject: [PATCH 01/11] fix: hand out all promised protocol IDs and none twice

A builder for a single child had an empty suffix and returned no ID at all,
a builder for 256 children stopped after 255, and after running out the
suffix wrapped around and the same IDs were handed out again.
---
 src/protocol/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index ba1bc57..6c1f9ce 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -27,15 +27,17 @@ pub type ProtocolID = Vec<u8>;
 pub struct ProtocolIDBuilder<'a> {
     id: &'a ProtocolID,
     suffix: Vec<u8>,
+    exhausted: bool,
 }
 
 impl<'a> ProtocolIDBuilder<'a> {
     /// num is an upper bound on the number of children created.
     pub fn new(parent_id: &'a ProtocolID, num: u64) -> Self {
-        let num_bytes = (num.next_power_of_two().ilog2() + 7) / 8;
+        let num_bytes = ((num.next_power_of_two().ilog2() + 7) / 8).max(1);
         ProtocolIDBuilder {
             id: parent_id,
             suffix: vec![0; num_bytes.try_into().unwrap()],
+            exhausted: false,
         }
     }
 
@@ -60,13 +62,16 @@ impl<'a> Iterator for ProtocolIDBuilder<'a> {
     /// Returns the next child ID.
     /// Number of child IDs that can be generated might not be equal to the bound used in new.
     fn next(&mut self) -> Option<Self::Item> {
+        if self.exhausted {
+            return None;
+        }
+
         let mut child_id = self.id.to_vec();
         child_id.extend_from_slice(&self.suffix);
 
-        match self.increment_bytes(0) {
-            Ok(_) => Some(child_id),
-            Err(_) => None,
-        }
+        // The suffix overflows after the last ID.
+        self.exhausted = self.increment_bytes(0).is_err();
+        Some(child_id)
     }
 }
 
-- 
2.43.0


From b7ba8041f118f4a700a48a73d257e418f6e79b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:08 +0000
Subject: [PATCH 02/11] fix: keep every receive request and survive dropped
 ones

A second request for the same protocol ID replaced the first one, whose
caller then failed, and a request dropped before its message arrived
brought the receive router down.
---
 src/protocol/network.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/protocol/network.rs b/src/protocol/network.rs
index 5ed3d1a..cf4bbd0 100644
--- a/src/protocol/network.rs
+++ b/src/protocol/network.rs
@@ -381,7 +381,8 @@ async fn receive_router(
     stats: Stats,
 ) {
     let mut mssg_pool: HashMap<ProtocolID, VecDeque<ReceivedMessage>> = HashMap::new();
-    let mut handle_pool: HashMap<ProtocolID, oneshot::Sender<ReceivedMessage>> = HashMap::new();
+    let mut handle_pool: HashMap<ProtocolID, VecDeque<oneshot::Sender<ReceivedMessage>>> =
+        HashMap::new();
 
     loop {
         tokio::select! {
@@ -390,27 +391,41 @@ async fn receive_router(
                 let net_bytes = proto_bytes + mssg.proto_id.len();
                 stats.increment(mssg.from, proto_bytes as u64, net_bytes as u64).await;
 
-                match handle_pool.remove(&mssg.proto_id) {
-                    Some(handle) => {
-                        handle.send(mssg).unwrap();
-                    },
-                    None => {
-                        mssg_pool.entry(mssg.proto_id.clone()).or_insert(VecDeque::new()).push_back(mssg);
+                // Requests whose receiver has been dropped are skipped.
+                let id = mssg.proto_id.clone();
+                let mut undelivered = Some(mssg);
+                if let Some(handles) = handle_pool.get_mut(&id) {
+                    while let Some(mssg) = undelivered.take() {
+                        match handles.pop_front() {
+                            Some(handle) => undelivered = handle.send(mssg).err(),
+                            None => {
+                                undelivered = Some(mssg);
+                                break;
+                            }
+                        }
+                    }
+                    if handles.is_empty() {
+                        handle_pool.remove(&id);
                     }
                 }
+
+                if let Some(mssg) = undelivered {
+                    mssg_pool.entry(id).or_insert(VecDeque::new()).push_back(mssg);
+                }
             },
             Some((id, handle)) = net_out_r.recv() => {
                 match mssg_pool.get_mut(&id) {
                     Some(buf) => {
                         let mssg = buf.pop_front().unwrap();
+                        if let Err(mssg) = handle.send(mssg) {
+                            buf.push_front(mssg);
+                        }
                         if buf.is_empty() {
                             mssg_pool.remove(&id);
                         }
-
-                        handle.send(mssg).unwrap();
                     },
                     None => {
-                        handle_pool.insert(id, handle);
+                        handle_pool.entry(id).or_insert(VecDeque::new()).push_back(handle);
                     }
                 }
             },
-- 
2.43.0


From faf53937659f4286606eb01e53c0cfd371c008ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:08 +0000
Subject: [PATCH 03/11] fix: restore key shape when deserializing preprocessing
 material

Keys are stored with shape (2, key length, blocks) but were read back as
(blocks, 2, key length), and material without blocks divided by zero.
---
 src/protocol/preproc.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/protocol/preproc.rs b/src/protocol/preproc.rs
index 30ba86c..5aa039d 100644
--- a/src/protocol/preproc.rs
+++ b/src/protocol/preproc.rs
@@ -482,11 +482,9 @@ impl<const W: u8> From<PreProc<W>> for PreProcSer<W> {
 
 impl<const W: u8> From<PreProcSer<W>> for PreProc<W> {
     fn from(value: PreProcSer<W>) -> Self {
-        let kshape = (
-            value.masks.len(),
-            2,
-            value.keys.len() / (2 * value.masks.len()),
-        );
+        let num_blocks = value.masks.len();
+        let key_len = value.keys.len() / (2 * num_blocks).max(1);
+        let kshape = (2, key_len, num_blocks);
 
         Self {
             masks: Array1::from_vec(value.masks),
-- 
2.43.0


From 57d64237e0b595c5911f7889d11564eaae5f2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:08 +0000
Subject: [PATCH 04/11] fix: keep circuit outputs in file order

The outputs of circuits with more than one output value were returned in
reverse order.
---
 src/circuit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index fa3129b..17dc499 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -104,7 +104,7 @@ impl Circuit {
 
         let num_outputs = next_meta_number();
         let out_lens: Vec<_> = (0..num_outputs).map(|_| next_meta_number()).collect();
-        let outputs: Vec<Vec<WireID>> = out_lens
+        let mut outputs: Vec<Vec<WireID>> = out_lens
             .into_iter()
             .rev()
             .scan(num_wires, |state, v| {
@@ -112,6 +112,7 @@ impl Circuit {
                 Some(((*state)..(*state + v)).collect())
             })
             .collect();
+        outputs.reverse();
 
         let mut gates = Vec::new();
 
-- 
2.43.0


From 514312f4d1e035c9bfa69cb4a1bd0bdfab755fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:08 +0000
Subject: [PATCH 05/11] fix: initialize each field width separately

Statics in generic functions are shared by all widths, so only the first
width used got its tables and its sampling range. A failed initialization
was reported to the first caller only.
---
 src/math/galois/mod.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/math/galois/mod.rs b/src/math/galois/mod.rs
index b3a0a9e..02cb6a1 100644
--- a/src/math/galois/mod.rs
+++ b/src/math/galois/mod.rs
@@ -5,7 +5,7 @@ use rand::Rng;
 use serde::de::{Deserialize, Deserializer, Visitor};
 use serde::ser::{Serialize, SerializeTuple, Serializer};
 use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};
-use std::sync::{Once, OnceLock};
+use std::sync::OnceLock;
 
 /// Galois field elements where the order of the field is 2^W.
 ///
@@ -27,21 +27,20 @@ impl<const W: u8> GF<W> {
     pub const ONE: Self = Self(1);
 
     fn get_dist() -> &'static Uniform<u32> {
-        static DIST: OnceLock<Uniform<u32>> = OnceLock::new();
+        // Statics are shared across all values of W.
+        static DIST: [OnceLock<Uniform<u32>>; 256] = [const { OnceLock::new() }; 256];
 
-        DIST.get_or_init(|| Uniform::new(0, 2_u32.pow(W.into())))
+        DIST[W as usize].get_or_init(|| Uniform::new(0, 2_u32.pow(W.into())))
     }
 
     /// Initialize the field by pre-computing data required to carry out field operations.
     pub fn init() -> Result<(), &'static str> {
-        static INIT: Once = Once::new();
+        // Statics are shared across all values of W.
+        static INIT: [OnceLock<bool>; 256] = [const { OnceLock::new() }; 256];
 
-        let mut flag = true;
-        INIT.call_once(|| {
+        let flag = *INIT[W as usize].get_or_init(|| {
             let res = unsafe { bindings::galois_create_log_tables(W.into()) };
-            if res != 0 {
-                flag = false;
-            }
+            res == 0
         });
 
         if flag {
-- 
2.43.0


From 3b1fb9f9261aca1ad99424f89e514125c757bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:08 +0000
Subject: [PATCH 06/11] fix: never create field elements outside the field

Converting an integer that is not below the field order indexed the log
tables out of bounds. Decoding accepted such values and panicked on
short input.
---
 src/math/galois/mod.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/math/galois/mod.rs b/src/math/galois/mod.rs
index 02cb6a1..23c5432 100644
--- a/src/math/galois/mod.rs
+++ b/src/math/galois/mod.rs
@@ -58,13 +58,7 @@ impl<const W: u8> GF<W> {
 
 impl<const W: u8> From<u32> for GF<W> {
     fn from(value: u32) -> Self {
-        let res = Self(value);
-
-        if value >= Self::ORDER {
-            res * Self::ONE
-        } else {
-            res
-        }
+        Self(value % Self::ORDER)
     }
 }
 
@@ -336,11 +330,16 @@ impl<'de, const W: u8> Visitor<'de> for GFVisitor<W> {
         A: serde::de::SeqAccess<'de>,
     {
         let mut vals = [0u8; 4];
-        for v in vals.iter_mut().take(GF::<W>::NUM_BYTES) {
+        for (i, v) in vals.iter_mut().take(GF::<W>::NUM_BYTES).enumerate() {
             let element = seq.next_element()?;
-            *v = element.unwrap();
+            *v = element.ok_or_else(|| serde::de::Error::invalid_length(i, &self))?;
+        }
+
+        let value = u32::from_le_bytes(vals);
+        if value >= GF::<W>::ORDER {
+            return Err(serde::de::Error::custom("value is not a field element"));
         }
 
-        Ok(GF(u32::from_le_bytes(vals)))
+        Ok(GF(value))
     }
 }
-- 
2.43.0


From c4a431b543cbfb4c6968cfe937e6eeda349cf7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:08 +0000
Subject: [PATCH 07/11] fix: transform the keys that belong to each block

The key array was reinterpreted with blocks as the first axis instead of
being transposed, so gates received input keys of other blocks.
---
 src/protocol/garble.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/protocol/garble.rs b/src/protocol/garble.rs
index 62b9f45..9247899 100644
--- a/src/protocol/garble.rs
+++ b/src/protocol/garble.rs
@@ -176,11 +176,15 @@ pub async fn garble<const W: u8>(
     let out_shares = {
         let (rand, rand_n) = tf_out_fut.await.unwrap();
 
+        // Keys are indexed by the block last.
         let mut inp = preproc
             .keys
             .clone()
-            .into_shape((num_blocks, 2 * mpcctx.lpn_key_len))
-            .unwrap();
+            .into_shape((2 * mpcctx.lpn_key_len, num_blocks))
+            .unwrap()
+            .reversed_axes()
+            .as_standard_layout()
+            .to_owned();
         inp.push(Axis(1), preproc.masks.view()).unwrap();
 
         context
-- 
2.43.0


From 500d8bc22b2cc9c250b7d8b4c8e3ac2a564d8ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:11 +0000
Subject: [PATCH 08/11] fix: garble inverter gates as inverters

The selected label was that of the unchanged input bit.
---
 src/protocol/garble.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/garble.rs b/src/protocol/garble.rs
index 9247899..8b65cd7 100644
--- a/src/protocol/garble.rs
+++ b/src/protocol/garble.rs
@@ -582,7 +582,7 @@ async fn garble_inv<const W: u8>(
     // Select the message to be encrypted in each row of the garbled table.
     // Shape: (2, lpn_mssg_len)
     let mssgs = {
-        let selector = Array1::from_elem(mpcctx.lpn_key_len + 1, inp_mask + out_mask);
+        let selector = Array1::from_elem(mpcctx.lpn_key_len + 1, inp_mask + out_mask + GF::ONE);
         let multiplicand =
             (&out_keys.index_axis(Axis(0), 1) - &out_keys.index_axis(Axis(0), 0)).to_owned();
 
-- 
2.43.0


From 6ebe25937c63c8a3848ce47c92dc496101f29e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:11 +0000
Subject: [PATCH 09/11] fix: report the number of threads in benchmark data

The number of repetitions was saved instead.
---
 src/bin/garble.rs  | 2 +-
 src/bin/preproc.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/garble.rs b/src/bin/garble.rs
index fed627e..e2fe725 100644
--- a/src/bin/garble.rs
+++ b/src/bin/garble.rs
@@ -159,7 +159,7 @@ async fn benchmark(circ: PackedCircuit, ipaddrs: Vec<String>, opts: Garble) {
                     lpn_key_len: opts.lpn_key_len,
                     lpn_mssg_len: opts.lpn_mssg_len,
                     reps: opts.reps,
-                    threads: opts.reps,
+                    threads: opts.threads,
                 },
                 benchmarks: json::JsonValue::new_array()
             };
diff --git a/src/bin/preproc.rs b/src/bin/preproc.rs
index aa84bef..f0a616c 100644
--- a/src/bin/preproc.rs
+++ b/src/bin/preproc.rs
@@ -163,7 +163,7 @@ async fn benchmark(circ: PackedCircuit, ipaddrs: Vec<String>, opts: PreProc) {
                     lpn_key_len: opts.lpn_key_len,
                     lpn_mssg_len: opts.lpn_mssg_len,
                     reps: opts.reps,
-                    threads: opts.reps
+                    threads: opts.threads
                 },
                 benchmarks: json::JsonValue::new_array()
             };
-- 
2.43.0


From 34c4562abb6b92ff0d3f8ac7d8788547cc45eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:15 +0000
Subject: [PATCH 10/11] fix: let the final benchmark message leave before party
 0 ends

With --save, party 0 returned right after queueing its final message, which
stopped the network tasks before the message was written, and all other
parties waited for it forever.
---
 src/bin/garble.rs  | 7 ++++---
 src/bin/preproc.rs | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bin/garble.rs b/src/bin/garble.rs
index e2fe725..f60889f 100644
--- a/src/bin/garble.rs
+++ b/src/bin/garble.rs
@@ -178,12 +178,13 @@ async fn benchmark(circ: PackedCircuit, ipaddrs: Vec<String>, opts: Garble) {
 
             net.send(network::SendMessage {
                 to: network::Recipient::All,
-                proto_id: bench_proto,
+                proto_id: bench_proto.clone(),
                 data: b"done".to_vec(),
             });
-        } else {
-            net.recv(bench_proto).await;
         }
+
+        // Returning stops the network tasks, so party 0 also waits for its message to be sent.
+        net.recv(bench_proto).await;
     }
 }
 
diff --git a/src/bin/preproc.rs b/src/bin/preproc.rs
index f0a616c..a70e571 100644
--- a/src/bin/preproc.rs
+++ b/src/bin/preproc.rs
@@ -182,12 +182,13 @@ async fn benchmark(circ: PackedCircuit, ipaddrs: Vec<String>, opts: PreProc) {
 
             net.send(network::SendMessage {
                 to: network::Recipient::All,
-                proto_id: bench_proto,
+                proto_id: bench_proto.clone(),
                 data: b"done".to_vec(),
             });
-        } else {
-            net.recv(bench_proto).await;
         }
+
+        // Returning stops the network tasks, so party 0 also waits for its message to be sent.
+        net.recv(bench_proto).await;
     }
 }
 
-- 
2.43.0


From de98d630f37cede7f283e81945b9ce1bee1f9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:04:06 +0000
Subject: [PATCH 11/11] fix: store keys in logical order whatever their memory
 layout

The saved preprocessing data used the raw memory order of the key matrix.
A key matrix that was not in standard layout came back rearranged.
---
 src/protocol/preproc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/preproc.rs b/src/protocol/preproc.rs
index 5aa039d..9f865fa 100644
--- a/src/protocol/preproc.rs
+++ b/src/protocol/preproc.rs
@@ -472,7 +472,7 @@ impl<const W: u8> From<PreProc<W>> for PreProcSer<W> {
     fn from(value: PreProc<W>) -> Self {
         Self {
             masks: value.masks.to_vec(),
-            keys: value.keys.into_raw_vec(),
+            keys: value.keys.iter().copied().collect(),
             randoms: value.randoms.into(),
             zeros: value.zeros.into(),
             errors: value.errors.into(),
-- 
2.43.0

