From ff88bd7faf68454b286bf9a58f7de8a0b2d0fb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:48 +0000
Subject: [PATCH 1/7] fix: Java binding: do not abort the process when an
 exception cannot be thrown

A JNI call that fails usually leaves an exception pending. throw_on_error then
called FindClass/ThrowNew with that exception pending, which fails, and the
expect() panicked across the extern "system" boundary, which aborts the JVM.
Leave the pending exception in place and do not panic when throwing fails.
---
 bindings/java/rust_code/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/java/rust_code/src/lib.rs b/bindings/java/rust_code/src/lib.rs
index e3c0225..1c2124a 100644
--- a/bindings/java/rust_code/src/lib.rs
+++ b/bindings/java/rust_code/src/lib.rs
@@ -267,6 +267,11 @@ fn cells_and_proofs_to_jobject<'local>(
 
 /// Throws an exception in Java
 fn throw_on_error(env: &mut JNIEnv, err: Error, func_name: &'static str) {
+    // The error may have been caused by an exception that the JVM already raised. That exception
+    // reports the failure, and no other one can be thrown while it is pending.
+    if env.exception_check().unwrap_or(false) {
+        return;
+    }
     let reason = match err {
         Error::Jni(err) => format!("{:?}", err),
         Error::IncorrectSize {
@@ -280,8 +285,9 @@ fn throw_on_error(env: &mut JNIEnv, err: Error, func_name: &'static str) {
         "function {} has thrown an exception, with reason: {}",
         func_name, reason
     );
-    env.throw_new("java/lang/IllegalArgumentException", msg)
-        .expect("Failed to throw exception");
+    // Throwing can itself fail (for example when the JVM is out of memory). The JVM then raises an
+    // exception of its own; panicking here would abort the whole process instead.
+    let _ = env.throw_new("java/lang/IllegalArgumentException", msg);
 }
 
 /// Convert a slice into a reference to an array
-- 
2.43.0


From 65316f9a96c952dd8542a5ee2b45457ee9cf43e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:15 +0000
Subject: [PATCH 2/7] fix: FK20 proofs are wrong when the trusted setup has
 surplus G1 points

The SRS vectors are taken from the end of the commitment key, so a setup with
more points than the polynomial bound shifted them and every proof was wrong,
while commitments and cells were right.
---
 cryptography/kzg_multi_open/src/fk20/prover.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cryptography/kzg_multi_open/src/fk20/prover.rs b/cryptography/kzg_multi_open/src/fk20/prover.rs
index 1158112..5906ebd 100644
--- a/cryptography/kzg_multi_open/src/fk20/prover.rs
+++ b/cryptography/kzg_multi_open/src/fk20/prover.rs
@@ -61,7 +61,7 @@ impl FK20Prover {
     /// points_per_proof: The number of points that a single proof will attest to.
     /// number_of_points_to_open: The total number of points that we want to open a polynomial at.
     pub fn new(
-        commit_key: CommitKey,
+        mut commit_key: CommitKey,
         polynomial_bound: usize,
         points_per_proof: usize,
         number_of_points_to_open: usize,
@@ -74,6 +74,10 @@ impl FK20Prover {
         assert!(commit_key.g1s.len() >= polynomial_bound);
         assert!(commit_key.g1s.len() > points_per_proof);
 
+        // A trusted setup may hold more points than the polynomials need. The vectors below are laid
+        // out from the last point backwards, so surplus points would misalign them.
+        commit_key.g1s.truncate(polynomial_bound);
+
         // 1. Compute the SRS vectors that we will multiply the toeplitz matrices by.
         //
         // Skip the last `coset_size` points in the srs
-- 
2.43.0


From 2ec20a62511f28592282ce0160a3750eaf21bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:19 +0000
Subject: [PATCH 3/7] fix: build contexts inside their own thread pool

Construction ran on rayon's global pool, whatever pool size was asked for. If
the system refused a thread while that pool was being started, no context could
be built again in the process: rayon never retries its global pool.
---
 eip7594/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/eip7594/src/lib.rs b/eip7594/src/lib.rs
index 814530e..eb6d2c0 100644
--- a/eip7594/src/lib.rs
+++ b/eip7594/src/lib.rs
@@ -137,11 +137,20 @@ impl DASContext {
                 .unwrap(),
         );
 
+        // Build inside of the pool that was asked for. Otherwise, the construction would start rayon's
+        // global thread pool, which can never be started again once a thread creation has failed.
+        let (prover_ctx, verifier_ctx) = thread_pool.install(|| {
+            (
+                ProverContext::new(trusted_setup, use_precomp),
+                VerifierContext::new(trusted_setup),
+            )
+        });
+
         DASContext {
             #[cfg(feature = "multithreaded")]
             thread_pool,
-            prover_ctx: ProverContext::new(trusted_setup, use_precomp),
-            verifier_ctx: VerifierContext::new(trusted_setup),
+            prover_ctx,
+            verifier_ctx,
         }
     }
 
-- 
2.43.0


From 7ad98046ec0128c41e9e767c53d45e4bd031f095 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 21:23:24 +0000
Subject: [PATCH 4/7] fix: keep the Go context alive while the native call uses
 it

The finalizer of a DASContext frees the native context. Once BlobToKZGCommitment had read the
pointer nothing referred to the Go object any more, so a collection during the call could run the
finalizer and free the context the call was using.
---
 bindings/golang/prover.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/golang/prover.go b/bindings/golang/prover.go
index 71d763d..f57c4d0 100644
--- a/bindings/golang/prover.go
+++ b/bindings/golang/prover.go
@@ -61,6 +61,9 @@ func (prover *DASContext) BlobToKZGCommitment(blob []byte) ([]byte, error) {
 	}
 	out := make([]byte, 48)
 	C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	// The finalizer frees the native context. Without this, it may run while the call above is still
+	// using the context, because nothing refers to prover any more.
+	runtime.KeepAlive(prover)
 	return out, nil
 }
 
-- 
2.43.0


From 0a285fed3ca0dadbfd7bf7458132066ef830db71 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 5/7] fix: report the native library's error from the Go
 BlobToKZGCommitment

---
 bindings/golang/prover.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/golang/prover.go b/bindings/golang/prover.go
index f57c4d0..848a201 100644
--- a/bindings/golang/prover.go
+++ b/bindings/golang/prover.go
@@ -60,10 +60,15 @@ func (prover *DASContext) BlobToKZGCommitment(blob []byte) ([]byte, error) {
 		return nil, errors.New("invalid blob size")
 	}
 	out := make([]byte, 48)
-	C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	res := C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
 	// The finalizer frees the native context. Without this, it may run while the call above is still
 	// using the context, because nothing refers to prover any more.
 	runtime.KeepAlive(prover)
+	if res.status != C.Ok {
+		err := errors.New(C.GoString(res.error_msg))
+		C.eth_kzg_free_error_message(res.error_msg)
+		return nil, err
+	}
 	return out, nil
 }
 
-- 
2.43.0


From c752702a2cca4a6bb5bca55c1cf04a26dee7ffcb Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 6/7] fix: Node binding: reject BigInt indices that are not
 unsigned 64-bit integers

---
 bindings/node/src/lib.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/bindings/node/src/lib.rs b/bindings/node/src/lib.rs
index c55e897..b03644b 100644
--- a/bindings/node/src/lib.rs
+++ b/bindings/node/src/lib.rs
@@ -161,7 +161,10 @@ impl DASContextJs {
     cell_indices: Vec<BigInt>,
     cells: Vec<Uint8Array>,
   ) -> Result<CellsAndProofs> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_>>()?;
     let cells: Vec<_> = cells.iter().map(|cell| cell.as_ref()).collect();
 
     let ctx = &self.inner;
@@ -212,7 +215,10 @@ impl DASContextJs {
     cells: Vec<Uint8Array>,
     proofs: Vec<Uint8Array>,
   ) -> Result<bool> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_>>()?;
 
     let commitments: Vec<_> = commitments
       .iter()
@@ -253,10 +259,16 @@ impl DASContextJs {
 }
 
 // We use bigint because u64 cannot be used as an argument, see : https://napi.rs/docs/concepts/values.en#bigint
-fn bigint_to_u64(value: BigInt) -> u64 {
-  let (signed, value_u128, _) = value.get_u128();
-  assert!(!signed, "value should be an unsigned integer");
-  value_u128 as u64
+//
+// Negative values and values that do not fit in 64 bits are errors: a panic here would abort the process and
+// a truncated index would be taken as a different cell.
+fn bigint_to_u64(value: BigInt) -> Result<u64> {
+  match value.get_u64() {
+    (_, value, true) => Ok(value),
+    _ => Err(Error::from_reason(
+      "value should be an unsigned 64-bit integer",
+    )),
+  }
 }
 
 /// Convert a slice into a reference to an array
-- 
2.43.0


From 14d37fd143511559bb103d3c606494b31f009584 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Wed, 18 Nov 2026 23:34:50 +0000
Subject: [PATCH 7/7] fix: g1_lincomb and g2_lincomb return None on a length
 mismatch

Both document that they return None if the numbers of points and scalars
differ, but they paired the two with zip() and silently dropped the rest.
---
 cryptography/bls12_381/src/lincomb.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptography/bls12_381/src/lincomb.rs b/cryptography/bls12_381/src/lincomb.rs
index fcd5160..42dab31 100644
--- a/cryptography/bls12_381/src/lincomb.rs
+++ b/cryptography/bls12_381/src/lincomb.rs
@@ -51,6 +51,9 @@ pub fn g2_lincomb_unsafe(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Pro
 ///
 /// It filters out any points that are the identity.
 pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective> {
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
@@ -72,6 +75,9 @@ pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective
 ///
 /// It filters out any points that are the identity.
 pub fn g2_lincomb(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Projective> {
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
-- 
2.43.0

