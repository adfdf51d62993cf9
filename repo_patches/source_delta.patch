From b02ce833834f96caf8ea63f812661fffcbc384ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:54 +0000
Subject: [PATCH 01/12] fix: let a context create as many sub-contexts as it
 announced

ProtocolIDBuilder sized its suffix so that announcing 1, 256 or 65536
children left room for one child too few, and next() returned None.
---
 src/protocol/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index ba1bc57..65bdbc2 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -32,7 +32,9 @@ pub struct ProtocolIDBuilder<'a> {
 impl<'a> ProtocolIDBuilder<'a> {
     /// num is an upper bound on the number of children created.
     pub fn new(parent_id: &'a ProtocolID, num: u64) -> Self {
-        let num_bytes = (num.next_power_of_two().ilog2() + 7) / 8;
+        // The last suffix value marks exhaustion so b bytes suffice for up to 256^b - 1 children.
+        let num_bits = u64::BITS - num.leading_zeros();
+        let num_bytes = ((num_bits + 7) / 8).max(1);
         ProtocolIDBuilder {
             id: parent_id,
             suffix: vec![0; num_bytes.try_into().unwrap()],
-- 
2.43.0


From 87d73db3cf26256e31ed0c0d6952d53193c2786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:08 +0000
Subject: [PATCH 02/12] fix: give every garbled gate the input keys of its own
 wires

The key array was reshaped from (label, symbol, block) to (block, label
and symbol) without moving the axes, so input wires of gates were
encrypted under symbols of unrelated wires' keys.
---
 src/protocol/garble.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/protocol/garble.rs b/src/protocol/garble.rs
index 62b9f45..7068532 100644
--- a/src/protocol/garble.rs
+++ b/src/protocol/garble.rs
@@ -176,9 +176,13 @@ pub async fn garble<const W: u8>(
     let out_shares = {
         let (rand, rand_n) = tf_out_fut.await.unwrap();
 
+        // Blocks are the last axis of keys while each row here holds the keys of one block.
         let mut inp = preproc
             .keys
-            .clone()
+            .view()
+            .permuted_axes([2, 0, 1])
+            .as_standard_layout()
+            .into_owned()
             .into_shape((num_blocks, 2 * mpcctx.lpn_key_len))
             .unwrap();
         inp.push(Axis(1), preproc.masks.view()).unwrap();
-- 
2.43.0


From 1e8921ae88f83688ea608e859c07aaa654c846e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:46 +0000
Subject: [PATCH 03/12] fix: append the masked bit, not the wire's value, to
 encrypted keys

The key for label b was followed by b plus the output mask.  Labels are
indexed by masked bits, so the appended symbol was the plain wire value
instead of the bit needed to pick the next row.
---
 src/protocol/garble.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/protocol/garble.rs b/src/protocol/garble.rs
index 7068532..5ac0a7f 100644
--- a/src/protocol/garble.rs
+++ b/src/protocol/garble.rs
@@ -379,9 +379,9 @@ async fn garble_and<const W: u8>(
     debug_assert_eq!(zeros.len(), num_mult);
     debug_assert_eq!(errors.len(), 4 * mpcctx.lpn_mssg_len);
 
-    // Append corresponding masks to keys.
+    // Append corresponding masked bits to keys.
     out_keys
-        .push_column(Array1::from_vec(vec![out_mask, out_mask + GF::ONE]).view())
+        .push_column(Array1::from_vec(vec![GF::ZERO, GF::ONE]).view())
         .unwrap();
 
     let inp_mask_prod = core::mult(
@@ -491,9 +491,9 @@ async fn garble_xor<const W: u8>(
     debug_assert_eq!(zeros.len(), num_mult);
     debug_assert_eq!(errors.len(), 4 * mpcctx.lpn_mssg_len);
 
-    // Append corresponding masks to keys.
+    // Append corresponding masked bits to keys.
     out_keys
-        .push_column(Array1::from_vec(vec![out_mask, out_mask + GF::ONE]).view())
+        .push_column(Array1::from_vec(vec![GF::ZERO, GF::ONE]).view())
         .unwrap();
 
     // Select the message to be encrypted in each row of the garbled table.
@@ -574,9 +574,9 @@ async fn garble_inv<const W: u8>(
     debug_assert_eq!(zeros.len(), num_mult);
     debug_assert_eq!(errors.len(), 2 * mpcctx.lpn_mssg_len);
 
-    // Append corresponding masks to keys.
+    // Append corresponding masked bits to keys.
     out_keys
-        .push_column(Array1::from_vec(vec![out_mask, out_mask + GF::ONE]).view())
+        .push_column(Array1::from_vec(vec![GF::ZERO, GF::ONE]).view())
         .unwrap();
 
     // Select the message to be encrypted in each row of the garbled table.
-- 
2.43.0


From bc8a09455553eabb61f46c0ff6249b286b8f1a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:13 +0000
Subject: [PATCH 04/12] fix: make garbled inverters negate

The row selector of an inverter lacked the constant one, so its table
computed the identity.
---
 src/protocol/garble.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/garble.rs b/src/protocol/garble.rs
index 5ac0a7f..572ee9d 100644
--- a/src/protocol/garble.rs
+++ b/src/protocol/garble.rs
@@ -582,7 +582,7 @@ async fn garble_inv<const W: u8>(
     // Select the message to be encrypted in each row of the garbled table.
     // Shape: (2, lpn_mssg_len)
     let mssgs = {
-        let selector = Array1::from_elem(mpcctx.lpn_key_len + 1, inp_mask + out_mask);
+        let selector = Array1::from_elem(mpcctx.lpn_key_len + 1, inp_mask + out_mask + GF::ONE);
         let multiplicand =
             (&out_keys.index_axis(Axis(0), 1) - &out_keys.index_axis(Axis(0), 0)).to_owned();
 
-- 
2.43.0


From 1b21c566140f2a0778b7c89d47a85d855e2121ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:01 +0000
Subject: [PATCH 05/12] fix: restore the shape of preprocessing keys when
 deserialising

---
 src/protocol/preproc.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/protocol/preproc.rs b/src/protocol/preproc.rs
index 30ba86c..9ed5f3f 100644
--- a/src/protocol/preproc.rs
+++ b/src/protocol/preproc.rs
@@ -482,11 +482,8 @@ impl<const W: u8> From<PreProc<W>> for PreProcSer<W> {
 
 impl<const W: u8> From<PreProcSer<W>> for PreProc<W> {
     fn from(value: PreProcSer<W>) -> Self {
-        let kshape = (
-            value.masks.len(),
-            2,
-            value.keys.len() / (2 * value.masks.len()),
-        );
+        let num_blocks = value.masks.len();
+        let kshape = (2, value.keys.len() / (2 * num_blocks.max(1)), num_blocks);
 
         Self {
             masks: Array1::from_vec(value.masks),
-- 
2.43.0


From 4b967c57d5de98b2b5e721489a145afd3acd0927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:26 +0000
Subject: [PATCH 06/12] fix: keep benchmark parties running until everyone has
 what it needs

A party used to exit right after queueing its last messages. Messages still in
its queues were lost and the parties waiting for them never finished. All
parties now meet at a final barrier and drain their queues before exiting.
---
 src/bin/garble.rs       | 15 ++++++---------
 src/bin/preproc.rs      | 15 ++++++---------
 src/protocol/network.rs | 26 +++++++++++++++++++++-----
 3 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/bin/garble.rs b/src/bin/garble.rs
index fed627e..65bad95 100644
--- a/src/bin/garble.rs
+++ b/src/bin/garble.rs
@@ -164,7 +164,7 @@ async fn benchmark(circ: PackedCircuit, ipaddrs: Vec<String>, opts: Garble) {
                 benchmarks: json::JsonValue::new_array()
             };
 
-            network::message_from_each_party(bench_proto.clone(), &net, n as usize)
+            network::message_from_each_party(bench_proto, &net, n as usize)
                 .await
                 .into_iter()
                 .for_each(|data| {
@@ -175,16 +175,13 @@ async fn benchmark(circ: PackedCircuit, ipaddrs: Vec<String>, opts: Garble) {
 
             let save_path = PathBuf::from(save_path);
             std::fs::write(save_path, save_data.dump()).expect("Can write to save file");
-
-            net.send(network::SendMessage {
-                to: network::Recipient::All,
-                proto_id: bench_proto,
-                data: b"done".to_vec(),
-            });
-        } else {
-            net.recv(bench_proto).await;
         }
     }
+
+    // Nobody leaves while another party may still need something from it.
+    network::sync(b"done".to_vec(), &net, n as usize).await;
+    drop(net);
+    stats.all_sent().await;
 }
 
 fn main() {
diff --git a/src/bin/preproc.rs b/src/bin/preproc.rs
index aa84bef..fb5af09 100644
--- a/src/bin/preproc.rs
+++ b/src/bin/preproc.rs
@@ -168,7 +168,7 @@ async fn benchmark(circ: PackedCircuit, ipaddrs: Vec<String>, opts: PreProc) {
                 benchmarks: json::JsonValue::new_array()
             };
 
-            network::message_from_each_party(bench_proto.clone(), &net, n as usize)
+            network::message_from_each_party(bench_proto, &net, n as usize)
                 .await
                 .into_iter()
                 .for_each(|data| {
@@ -179,16 +179,13 @@ async fn benchmark(circ: PackedCircuit, ipaddrs: Vec<String>, opts: PreProc) {
 
             let save_path = PathBuf::from(save_path);
             std::fs::write(save_path, save_data.dump()).expect("Can write to save file");
-
-            net.send(network::SendMessage {
-                to: network::Recipient::All,
-                proto_id: bench_proto,
-                data: b"done".to_vec(),
-            });
-        } else {
-            net.recv(bench_proto).await;
         }
     }
+
+    // Nobody leaves while another party may still need something from it.
+    network::sync(b"done".to_vec(), &net, n as usize).await;
+    drop(net);
+    stats.all_sent().await;
 }
 
 fn main() {
diff --git a/src/protocol/network.rs b/src/protocol/network.rs
index 5ed3d1a..ef7d20d 100644
--- a/src/protocol/network.rs
+++ b/src/protocol/network.rs
@@ -2,14 +2,14 @@ use super::{ProtoHandle, ProtocolID};
 use crate::PartyID;
 use std::collections::HashMap;
 use std::collections::VecDeque;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex};
 use std::time::Duration;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
 use tokio::sync::{oneshot, RwLock};
-use tokio::task::spawn;
+use tokio::task::{spawn, JoinHandle};
 
 #[derive(Clone, Copy, Debug)]
 pub enum Recipient {
@@ -32,11 +32,26 @@ pub struct ReceivedMessage {
 }
 
 #[derive(Clone)]
-pub struct Stats(Arc<RwLock<Vec<(u64, u64)>>>);
+pub struct Stats(
+    Arc<RwLock<Vec<(u64, u64)>>>,
+    Arc<Mutex<Vec<JoinHandle<()>>>>,
+);
 
 impl Stats {
     fn new(num_parties: usize) -> Self {
-        Stats(Arc::new(RwLock::new(vec![(0, 0); num_parties])))
+        Stats(
+            Arc::new(RwLock::new(vec![(0, 0); num_parties])),
+            Arc::new(Mutex::new(Vec::new())),
+        )
+    }
+
+    /// Waits until everything sent has been handed to the operating system. Completes only once
+    /// all handles to the network are dropped.
+    pub async fn all_sent(&self) {
+        let senders = std::mem::take(&mut *self.1.lock().unwrap());
+        for sender in senders {
+            sender.await.ok();
+        }
     }
 
     async fn increment(&self, from: PartyID, proto_bytes: u64, net_bytes: u64) {
@@ -94,7 +109,8 @@ pub async fn setup_tcp_network(party_id: PartyID, addresses: &[String]) -> (Stat
             Some(stream) => {
                 let (read_stream, write_stream) = stream.into_split();
 
-                spawn(party_sender(rx, write_stream));
+                let sender = spawn(party_sender(rx, write_stream));
+                stats.1.lock().unwrap().push(sender);
                 spawn(party_receiver(
                     pid.try_into().unwrap(),
                     read_stream,
-- 
2.43.0


From b1a6edbcf47dabf40a14bca49dc68028a6b0e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:26 +0000
Subject: [PATCH 07/12] fix: save the number of threads of a benchmark run

The saved details held the number of repetitions instead.
---
 src/bin/garble.rs  | 2 +-
 src/bin/preproc.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/garble.rs b/src/bin/garble.rs
index 65bad95..5bd457c 100644
--- a/src/bin/garble.rs
+++ b/src/bin/garble.rs
@@ -159,7 +159,7 @@ async fn benchmark(circ: PackedCircuit, ipaddrs: Vec<String>, opts: Garble) {
                     lpn_key_len: opts.lpn_key_len,
                     lpn_mssg_len: opts.lpn_mssg_len,
                     reps: opts.reps,
-                    threads: opts.reps,
+                    threads: opts.threads,
                 },
                 benchmarks: json::JsonValue::new_array()
             };
diff --git a/src/bin/preproc.rs b/src/bin/preproc.rs
index fb5af09..0dbf389 100644
--- a/src/bin/preproc.rs
+++ b/src/bin/preproc.rs
@@ -163,7 +163,7 @@ async fn benchmark(circ: PackedCircuit, ipaddrs: Vec<String>, opts: PreProc) {
                     lpn_key_len: opts.lpn_key_len,
                     lpn_mssg_len: opts.lpn_mssg_len,
                     reps: opts.reps,
-                    threads: opts.reps
+                    threads: opts.threads
                 },
                 benchmarks: json::JsonValue::new_array()
             };
-- 
2.43.0


From 49c1d9098b48e58657d4040ca2d9145460d0c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:59 +0000
Subject: [PATCH 08/12] fix: keep the output groups of a circuit in file order

They were listed in reverse, so evaluation returned a circuit's outputs in the
wrong order when it has more than one.
---
 src/circuit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index fa3129b..0540461 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -104,12 +104,12 @@ impl Circuit {
 
         let num_outputs = next_meta_number();
         let out_lens: Vec<_> = (0..num_outputs).map(|_| next_meta_number()).collect();
+        let first_output = num_wires - out_lens.iter().sum::<u32>();
         let outputs: Vec<Vec<WireID>> = out_lens
             .into_iter()
-            .rev()
-            .scan(num_wires, |state, v| {
-                *state -= v;
-                Some(((*state)..(*state + v)).collect())
+            .scan(first_output, |state, v| {
+                *state += v;
+                Some(((*state - v)..(*state)).collect())
             })
             .collect();
 
-- 
2.43.0


From 823ff1f9a336c859f6a2f86e9bc6768cd64b8834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:19 +0000
Subject: [PATCH 09/12] fix: refuse binary matrices with rows of different
 lengths

A file cut inside its last row could still be accepted, as a matrix of another
shape, when the number of entries happened to fit.
---
 src/math/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 1d51d88..8d6adf2 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -84,6 +84,7 @@ pub fn binary_super_inv_matrix<const W: u8>(path: &Path) -> Array2<GF<W>> {
 
     let mut matrix = Vec::new();
     let mut num_rows = 0;
+    let mut row_ends = Vec::new();
     for line in reader.lines() {
         let line = line.unwrap();
 
@@ -96,9 +97,14 @@ pub fn binary_super_inv_matrix<const W: u8>(path: &Path) -> Array2<GF<W>> {
         }
 
         num_rows += 1;
+        row_ends.push(matrix.len());
     }
 
     let num_cols = matrix.len() / num_rows;
+    assert!(
+        row_ends.iter().zip(1..).all(|(&end, i)| end == i * num_cols),
+        "Rows of binary super invertible matrix should have equal lengths"
+    );
     Array::from_shape_vec((num_rows, num_cols), matrix)
         .unwrap()
         .reversed_axes()
-- 
2.43.0


From 1f4d92d1d0cba4c1b9f4b7035fc0eed1efe1b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:24 +0000
Subject: [PATCH 10/12] fix: initialise and sample every field independently of
 others

The statics holding the initialisation state and the sampling range were
shared by all field sizes. Only the first field initialised got tables,
every field sampled from the first field's range, and after a failed
initialisation later calls reported success.
---
 src/math/galois/mod.rs | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/math/galois/mod.rs b/src/math/galois/mod.rs
index b3a0a9e..5049341 100644
--- a/src/math/galois/mod.rs
+++ b/src/math/galois/mod.rs
@@ -5,7 +5,7 @@ use rand::Rng;
 use serde::de::{Deserialize, Deserializer, Visitor};
 use serde::ser::{Serialize, SerializeTuple, Serializer};
 use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};
-use std::sync::{Once, OnceLock};
+use std::sync::Mutex;
 
 /// Galois field elements where the order of the field is 2^W.
 ///
@@ -26,25 +26,16 @@ impl<const W: u8> GF<W> {
     /// Multiplicative identity.
     pub const ONE: Self = Self(1);
 
-    fn get_dist() -> &'static Uniform<u32> {
-        static DIST: OnceLock<Uniform<u32>> = OnceLock::new();
-
-        DIST.get_or_init(|| Uniform::new(0, 2_u32.pow(W.into())))
-    }
-
     /// Initialize the field by pre-computing data required to carry out field operations.
     pub fn init() -> Result<(), &'static str> {
-        static INIT: Once = Once::new();
+        // Statics in generic code are shared by all fields, so this only serializes
+        // initialization. Repeated calls for the same field do not recompute its tables.
+        static LOCK: Mutex<()> = Mutex::new(());
 
-        let mut flag = true;
-        INIT.call_once(|| {
-            let res = unsafe { bindings::galois_create_log_tables(W.into()) };
-            if res != 0 {
-                flag = false;
-            }
-        });
+        let _guard = LOCK.lock().unwrap();
+        let res = unsafe { bindings::galois_create_log_tables(W.into()) };
 
-        if flag {
+        if res == 0 {
             Ok(())
         } else {
             Err("Could not initialize the field.")
@@ -53,7 +44,7 @@ impl<const W: u8> GF<W> {
 
     /// Sample an element uniformly at random from the field.
     pub fn rand<R: Rng>(rng: &mut R) -> Self {
-        Self(Self::get_dist().sample(rng))
+        Self(Uniform::new(0, Self::ORDER).sample(rng))
     }
 }
 
-- 
2.43.0


From 9b90f128a0a12a5abb387ad97f4b30ba9825369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:22 +0000
Subject: [PATCH 11/12] fix: refuse circuit files whose header lines are
 incomplete

The numbers of the first lines were read without regard to line ends, so a
header that lacked a number could be taken for a different one.
---
 src/circuit.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/circuit.rs b/src/circuit.rs
index 0540461..f50a4ab 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -80,8 +80,11 @@ impl Circuit {
         let mut reader = BufReader::new(file);
 
         let mut meta_data = String::new();
+        let mut meta_lens = Vec::new();
         for _ in 0..4 {
+            let start = meta_data.len();
             reader.read_line(&mut meta_data).unwrap();
+            meta_lens.push(meta_data[start..].split_ascii_whitespace().count());
         }
         let mut meta_iter = meta_data.split_ascii_whitespace();
         let mut next_meta_number = || -> u32 {
@@ -113,6 +116,12 @@ impl Circuit {
             })
             .collect();
 
+        assert_eq!(
+            meta_lens,
+            [2, inputs.len() + 1, outputs.len() + 1, 0],
+            "Lines of meta data should be complete"
+        );
+
         let mut gates = Vec::new();
 
         for _ in 0..num_gates {
-- 
2.43.0


From 774329e831d4c6d500c7c9fd9982592ce50bf09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:54 +0000
Subject: [PATCH 12/12] fix: store preprocessing keys in their logical order
 whatever their memory layout

---
 src/protocol/preproc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/preproc.rs b/src/protocol/preproc.rs
index 9ed5f3f..9a953ee 100644
--- a/src/protocol/preproc.rs
+++ b/src/protocol/preproc.rs
@@ -472,7 +472,7 @@ impl<const W: u8> From<PreProc<W>> for PreProcSer<W> {
     fn from(value: PreProc<W>) -> Self {
         Self {
             masks: value.masks.to_vec(),
-            keys: value.keys.into_raw_vec(),
+            keys: value.keys.into_iter().collect(),
             randoms: value.randoms.into(),
             zeros: value.zeros.into(),
             errors: value.errors.into(),
-- 
2.43.0

