From fed5ede057b841ec8799f014063361dda59c190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:38 +0000
Subject: [PATCH 01/12] verif: accessors for private modules and proof fields,
 behind cfg(qesa_verif)

---
 src/copy/copy.rs      | 19 +++++++++++++++++++
 src/copy/mapping.rs   | 26 ++++++++++++++++++++++++++
 src/copy/mod.rs       | 10 ++++++++++
 src/ipa/alm_zk.rs     |  7 +++++++
 src/ipa/no_zk.rs      |  9 +++++++++
 src/ipa/qesa_inner.rs | 10 ++++++++++
 src/lib.rs            | 10 ++++++++++
 src/lmpa/no_zk.rs     | 25 +++++++++++++++++++++++++
 src/lmpa/simple_zk.rs | 15 +++++++++++++++
 src/qesa_zk.rs        |  8 ++++++++
 10 files changed, 139 insertions(+)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index d7f0af2..fb92580 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -408,3 +408,22 @@ mod tests {
         (0..n).map(|_| Scalar::random(&mut rng)).collect()
     }
 }
+
+#[cfg(qesa_verif)]
+impl Copy {
+    pub fn verif_parts(&mut self) -> (&mut CompressedRistretto, &mut qesa_inner::Inner) {
+        (&mut self.C_w, &mut self.inner)
+    }
+    pub fn verif_verify(
+        &self,
+        transcript: &mut Transcript,
+        G_Vec: Vec<RistrettoPoint>,
+        H_Vec: Vec<RistrettoPoint>,
+        Q: &RistrettoPoint,
+        gamma_i: BlockMatrix,
+        map: Mapping,
+        commitments: Vec<RistrettoPoint>,
+    ) -> bool {
+        self.verify(transcript, G_Vec, H_Vec, Q, gamma_i, map, commitments)
+    }
+}
diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index b0ff932..5ff07b0 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -218,3 +218,29 @@ fn test_random_compute_mapping() {
         }
     }
 }
+
+#[cfg(qesa_verif)]
+impl Mapping {
+    pub fn verif_parts(
+        &mut self,
+    ) -> (&mut usize, &mut Vec<MessageMap>, &mut BTreeSet<u16>, &mut u16) {
+        (
+            &mut self.num_commitments,
+            &mut self.msgs_map,
+            &mut self.unique_commitment_indices,
+            &mut self.last_index,
+        )
+    }
+}
+#[cfg(qesa_verif)]
+impl MessageMap {
+    // (msg_id, commitment_index, commitment_crs_id, position_in_witness)
+    pub fn verif_parts(&mut self) -> (&mut usize, &mut u16, &mut u16, &mut u16) {
+        (
+            &mut self.msg_id,
+            &mut self.commitment_index,
+            &mut self.commitment_crs_id,
+            &mut self.position_in_witness,
+        )
+    }
+}
diff --git a/src/copy/mod.rs b/src/copy/mod.rs
index 1467674..3402a7b 100644
--- a/src/copy/mod.rs
+++ b/src/copy/mod.rs
@@ -1,2 +1,12 @@
 mod copy;
 mod mapping;
+
+#[cfg(qesa_verif)]
+pub mod verif_hooks {
+    pub mod copy {
+        pub use crate::copy::copy::*;
+    }
+    pub mod mapping {
+        pub use crate::copy::mapping::*;
+    }
+}
diff --git a/src/ipa/alm_zk.rs b/src/ipa/alm_zk.rs
index c9701b2..bac1215 100644
--- a/src/ipa/alm_zk.rs
+++ b/src/ipa/alm_zk.rs
@@ -155,3 +155,10 @@ mod tests {
         assert!(proof.verify(&mut verifier_transcript, &G, &H, &Q, n, C_w, t));
     }
 }
+
+#[cfg(qesa_verif)]
+impl AlmZK {
+    pub fn verif_parts(&mut self) -> (&mut CompressedRistretto, &mut no_zk::NoZK) {
+        (&mut self.C_r, &mut self.NoZK)
+    }
+}
diff --git a/src/ipa/no_zk.rs b/src/ipa/no_zk.rs
index 3bdfe26..c60062e 100644
--- a/src/ipa/no_zk.rs
+++ b/src/ipa/no_zk.rs
@@ -219,3 +219,12 @@ mod tests {
         assert!(proof.verify(&mut verifier_transcript, &G, &H, &Q, n, P, t));
     }
 }
+
+#[cfg(qesa_verif)]
+impl NoZK {
+    pub fn verif_parts(
+        &mut self,
+    ) -> (&mut Vec<CompressedRistretto>, &mut Vec<CompressedRistretto>, &mut Scalar, &mut Scalar) {
+        (&mut self.L_vec, &mut self.R_vec, &mut self.a, &mut self.b)
+    }
+}
diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index dc3cec1..d14eb2f 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -354,3 +354,13 @@ mod tests {
         assert!(proof.verify(&mut verifier_transcript, G, H, &Q, &matrix))
     }
 }
+
+#[cfg(qesa_verif)]
+impl Inner {
+    // (alm_zk, c_prime_w, c_prime_prime_w)
+    pub fn verif_parts(
+        &mut self,
+    ) -> (&mut alm_zk::AlmZK, &mut CompressedRistretto, &mut CompressedRistretto) {
+        (&mut self.alm_zk, &mut self.c_prime_w, &mut self.c_prime_prime_w)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index c596d75..52d1e6c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,3 +13,13 @@ mod tests {
         assert_eq!(2 + 2, 4);
     }
 }
+
+/// Access to private items for the verification harness (only with `--cfg qesa_verif`).
+#[cfg(qesa_verif)]
+pub mod verif_hooks {
+    pub use crate::copy::verif_hooks::{copy, mapping};
+    pub use crate::ipa::{alm_zk, gramschmidt, no_zk, qesa_inner};
+    pub mod math_utils {
+        pub use crate::math_utils::*;
+    }
+}
diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index d28f4af..9cee42b 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -9,6 +9,7 @@ use std::fmt::Debug;
 use curve25519_dalek::traits::Identity;
 
 // Linear Map Pre-Image Argument without zero knowledge
+#[cfg_attr(qesa_verif, derive(Clone))]
 pub struct NoZK {
     L_Vec: Vec<Vec<RistrettoPoint>>,
     R_Vec: Vec<Vec<RistrettoPoint>>,
@@ -79,6 +80,7 @@ pub fn create(
 }
 
 // For protocol 3.9 in qesa paper.
+#[cfg_attr(qesa_verif, derive(Clone))]
 pub struct lmpa_noZK{
     A_Matrix: Vec<Vec<RistrettoPoint>>,
     t_Vec: Vec<RistrettoPoint>,
@@ -1005,3 +1007,26 @@ fn test_lmpa_almSnd_float_2() {
     assert_eq!(verifier_t, t);
 }
 
+
+#[cfg(qesa_verif)]
+impl NoZK {
+    pub fn verif_parts(
+        &mut self,
+    ) -> (&mut Vec<Vec<RistrettoPoint>>, &mut Vec<Vec<RistrettoPoint>>, &mut Scalar) {
+        (&mut self.L_Vec, &mut self.R_Vec, &mut self.w)
+    }
+}
+#[cfg(qesa_verif)]
+impl lmpa_noZK {
+    // (final matrix, final target, final witness, cross terms per round)
+    pub fn verif_parts(
+        &mut self,
+    ) -> (
+        &mut Vec<Vec<RistrettoPoint>>,
+        &mut Vec<RistrettoPoint>,
+        &mut Vec<Scalar>,
+        &mut Vec<Vec<Vec<RistrettoPoint>>>,
+    ) {
+        (&mut self.A_Matrix, &mut self.t_Vec, &mut self.w_Vec, &mut self.u_proof_Block)
+    }
+}
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 5ab34ce..e427429 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -10,6 +10,7 @@ use curve25519_dalek::{
 use merlin::Transcript;
 
 // Linear Map Pre-Image Argument without zero knowledge
+#[cfg_attr(qesa_verif, derive(Clone))]
 pub struct SimpleZK {
     no_zk: no_zk::NoZK,
     a: Vec<RistrettoPoint>,
@@ -48,6 +49,7 @@ pub fn create(
 
 // Linear Map Pre-Image Argument without zero knowledge
 // Protocol 3.13 in qesa paper.
+#[cfg_attr(qesa_verif, derive(Clone))]
 pub struct SimpleZK_general {
     lamp_no_zk: no_zk::lmpa_noZK,
     a: Vec<RistrettoPoint>,
@@ -346,3 +348,16 @@ pub fn pedersen_commit(
     commitment
 }
 
+
+#[cfg(qesa_verif)]
+impl SimpleZK {
+    pub fn verif_parts(&mut self) -> (&mut no_zk::NoZK, &mut Vec<RistrettoPoint>) {
+        (&mut self.no_zk, &mut self.a)
+    }
+}
+#[cfg(qesa_verif)]
+impl SimpleZK_general {
+    pub fn verif_parts(&mut self) -> (&mut no_zk::lmpa_noZK, &mut Vec<RistrettoPoint>) {
+        (&mut self.lamp_no_zk, &mut self.a)
+    }
+}
diff --git a/src/qesa_zk.rs b/src/qesa_zk.rs
index 5f4b0a0..07623b5 100644
--- a/src/qesa_zk.rs
+++ b/src/qesa_zk.rs
@@ -5,6 +5,7 @@ use curve25519_dalek::{ristretto::RistrettoPoint, scalar::Scalar};
 use merlin::Transcript;
 
 // QESA_ZK is a glorified wrapper around Qesa_Inner
+#[cfg_attr(qesa_verif, derive(Clone))]
 pub struct Zk {
     inner: qesa_inner::Inner,
 }
@@ -44,3 +45,10 @@ impl Zk {
         self.inner.verify(transcript, G_Vec, H_Vec, Q, gamma_i)
     }
 }
+
+#[cfg(qesa_verif)]
+impl Zk {
+    pub fn verif_parts(&mut self) -> &mut qesa_inner::Inner {
+        &mut self.inner
+    }
+}
-- 
2.43.0


From 6b29e0e7b446838c7fd8cd3b40be75022774392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:28 +0000
Subject: [PATCH 02/12] fix: orthogonal projection of a vector that is already
 orthogonal

---
 src/ipa/gramschmidt.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ipa/gramschmidt.rs b/src/ipa/gramschmidt.rs
index a4834d1..920b0a3 100644
--- a/src/ipa/gramschmidt.rs
+++ b/src/ipa/gramschmidt.rs
@@ -32,7 +32,12 @@ pub fn orth(a: &[Scalar], b: &[Scalar]) -> Vec<Scalar> {
     let aa: Scalar = inner_product(&a, &a);
     let ab: Scalar = inner_product(&a, &b);
 
-    assert_ne!(Scalar::zero(), ab);
+    // `b` is already orthogonal to `a`
+    if ab == Scalar::zero() {
+        return b.to_vec();
+    }
+    // A self-orthogonal vector has no orthogonal projection
+    assert_ne!(Scalar::zero(), aa);
 
     let x: Scalar = ab * aa.invert();
 
-- 
2.43.0


From 9587b5672fed168f61fc6a199efab507b029b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 03/12] fix: compute_mapping refuses the reserved index 0

---
 src/copy/mapping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index 5ff07b0..5950227 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -78,7 +78,7 @@ pub fn compute_mapping(
         .collect();
 
     // The first element in the witness is reserved and so users cannot commit to it.
-    unique_indices.contains(&0);
+    assert!(!unique_indices.contains(&0));
 
     // This is the total amount of messages that are being committed to
     // Which is equal to the total amount of indices
-- 
2.43.0


From 93004cf870140f3702d6b76d4bbdf92bf619cf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 04/12] fix: quadratic argument batches every equation, also
 when there are more than n

---
 src/ipa/qesa_inner.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index d14eb2f..0d355a2 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -41,8 +41,10 @@ pub fn create(
 
     //3. Compute challenges based on C'_w
     //
-    let x_challenges: Vec<Scalar> = vandemonde_challenge(transcript.challenge_scalar(b"x"), n);
-    assert_eq!(x_challenges.len(), n);
+    // There must be a challenge for every matrix, even if there are more than `n`
+    let num_challenges = n.max(gamma_i.block.len());
+    let x_challenges: Vec<Scalar> =
+        vandemonde_challenge(transcript.challenge_scalar(b"x"), num_challenges);
 
     // 4. batch each matrix into a single matrix using the challenges
     //
@@ -131,7 +133,10 @@ impl Inner {
 
         //2. Compute challenges based on C'_w
         //
-        let x_challenges: Vec<Scalar> = vandemonde_challenge(transcript.challenge_scalar(b"x"), n);
+        // There must be a challenge for every matrix, even if there are more than `n`
+        let num_challenges = n.max(gamma_i.block.len());
+        let x_challenges: Vec<Scalar> =
+            vandemonde_challenge(transcript.challenge_scalar(b"x"), num_challenges);
 
         // 3. batch each matrix into a single matrix using the challenges
         //
-- 
2.43.0


From 5a89fbf5feb956408c1f6c6d7c26156008c5f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 05/12] fix: bind the quadratic system to the transcript before
 drawing challenges

---
 src/ipa/qesa_inner.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 0d355a2..c96a820 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -34,6 +34,9 @@ pub fn create(
     //
     let w_prime = [&w[..], &r_prime[..]].concat();
 
+    // The challenges have to depend on the system that is being proven
+    append_system(transcript, gamma_i);
+
     //2. Compute commitment (C'_w) to w'
     //
     let c_prime_w = RistrettoPoint::vartime_multiscalar_mul(w_prime.iter(), G_Vec.iter());
@@ -126,6 +129,8 @@ impl Inner {
     ) -> bool {
         let n = H_Vec.len();
 
+        append_system(transcript, gamma_i);
+
         //1. Decompress the commitment (C'_w)
         //
         transcript.append_message(b"c_prime_w", self.c_prime_w.as_bytes());
@@ -190,6 +195,18 @@ impl Inner {
     }
 }
 
+// Adds the system of equations to the transcript
+fn append_system(transcript: &mut Transcript, gamma_i: &BlockMatrix) {
+    transcript.append_u64(b"num_matrices", gamma_i.block.len() as u64);
+    for matrix in gamma_i.block.iter() {
+        for row in matrix.iter() {
+            for element in row.iter() {
+                transcript.append_message(b"gamma", element.as_bytes());
+            }
+        }
+    }
+}
+
 fn compute_gamma_prime(gamma: &Vec<Vec<Scalar>>, n: usize) -> Vec<Vec<Scalar>> {
     // Pad the gamma rows with zeroes at the end (iss#1)
     let mut gamma_prime: Vec<Vec<Scalar>> = gamma
-- 
2.43.0


From 9bcc13e819a48967e45b5e77c4b6d0a43e34bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 06/12] fix: bind the commitments to the transcript before
 drawing alpha

---
 src/copy/copy.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index fb92580..b065510 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -69,6 +69,17 @@ pub fn create(
     let C_w = RistrettoPoint::vartime_multiscalar_mul(w_prime.iter(), G_Vec.iter());
     transcript.append_message(b"c_w", C_w.compress().as_bytes());
 
+    // The challenge has to depend on the commitments, which follow from the openings
+    let mut commitments: Vec<RistrettoPoint> =
+        openings.iter().map(|(_, rnd)| rnd * G_Vec[n - 1]).collect();
+    for (msg, msg_map) in all_messages.iter().zip(map.msgs_map.iter()) {
+        commitments[msg_map.commitment_crs_id as usize] +=
+            msg * G_Vec[msg_map.commitment_index as usize];
+    }
+    for commitment in commitments.iter() {
+        transcript.append_message(b"commitment", commitment.compress().as_bytes());
+    }
+
     // 6. Use challenges to adjust the witness value
     //
     let alpha = transcript.challenge_scalar(b"alpha");
@@ -176,6 +187,9 @@ impl Copy {
         //1. Add commited witness to the transcript
         //
         transcript.append_message(b"c_w", self.C_w.as_bytes());
+        for commitment in commitments.iter() {
+            transcript.append_message(b"commitment", commitment.compress().as_bytes());
+        }
 
         // 2. Use challenge to adjust the commitment values
         //
-- 
2.43.0


From ad14ac16ba6d25e9a3ceb80a5f5aabc6a063f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 07/12] fix: halving linear-map verifier checks every row

---
 src/lmpa/no_zk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 9cee42b..e5824c4 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -282,7 +282,7 @@ impl NoZK {
 
         let expected_t = matrixpoint_vector_mul(&A, &base_witnes);
 
-        expected_t[0] == t[0]
+        expected_t == t
     }
 }
 
-- 
2.43.0


From a3539ff473496bcc5798226361131d19cbf26dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 08/12] fix: k-ary zero-knowledge linear-map prover uses the
 blinded witness

---
 src/lmpa/simple_zk.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index e427429..a8ae7b4 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -81,11 +81,18 @@ pub fn create_general(
         .map(|(witness, random)| beta * witness + random)
         .collect();
 
+    // The image of the blinded witness
+    let t_prime: Vec<RistrettoPoint> = t
+        .iter()
+        .zip(a.iter())
+        .map(|(t_i, a_i)| beta * t_i + a_i)
+        .collect();
+
     let proof = no_zk::create_lmpa_noZK(
         transcript,
         A.clone(),
-        w,
-        t.clone(),
+        w_prime,
+        t_prime,
         n, //cols
         m, //rows
         k, //k
-- 
2.43.0


From 04bfa1942dd3ffaa4823e10428380e748b41cc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 09/12] fix: k-ary linear-map verifier checks the claimed image
 and map in every row

---
 src/lmpa/no_zk.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index e5824c4..0c2bf59 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -299,6 +299,7 @@ impl lmpa_noZK {
         zero: RistrettoPoint,
     ) -> bool {
         let mut challenge_index = 0;
+        let mut consistent = true;
         while n >= k {
             let chunk_size = n/k;
             let A_T = matrix_split(&A, chunk_size);
@@ -314,6 +315,8 @@ impl lmpa_noZK {
                     transcript.append_message(b"u_l", u_l.compress().as_bytes());
                 }
             }
+            // The middle term is the current image
+            consistent = consistent && self.u_proof_Block[challenge_index][shift] == t;
             
             let x = transcript.challenge_scalar(b"challenge_x");
 
@@ -378,9 +381,9 @@ impl lmpa_noZK {
             challenge_index += 1;
         }
 
-        let expected_t = matrixpoint_vector_mul(&self.A_Matrix, &self.w_Vec);
+        let expected_t = matrixpoint_vector_mul(&A, &self.w_Vec);
 
-        expected_t[0] == t[0]
+        consistent && self.A_Matrix == A && self.t_Vec == t && expected_t == t
     }
 }
 
-- 
2.43.0


From 6d6b69317a9778fa27b204299a22fec0bb757e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 10/12] fix: bind map and image of the linear-map arguments to
 the transcript

---
 src/lmpa/no_zk.rs     | 24 ++++++++++++++++++++++++
 src/lmpa/simple_zk.rs |  7 +++++++
 2 files changed, 31 insertions(+)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 0c2bf59..fcfc70d 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -15,6 +15,22 @@ pub struct NoZK {
     R_Vec: Vec<Vec<RistrettoPoint>>,
     w: Scalar,
 }
+// Adds the linear map and the claimed image to the transcript
+pub(crate) fn append_statement(
+    transcript: &mut Transcript,
+    A: &Vec<Vec<RistrettoPoint>>,
+    t: &[RistrettoPoint],
+) {
+    for row in A.iter() {
+        for element in row.iter() {
+            transcript.append_message(b"A", element.compress().as_bytes());
+        }
+    }
+    for element in t.iter() {
+        transcript.append_message(b"t", element.compress().as_bytes());
+    }
+}
+
 pub fn create(
     transcript: &mut Transcript,
     mut A: Vec<Vec<RistrettoPoint>>,
@@ -25,6 +41,8 @@ pub fn create(
 ) -> NoZK {
     let mut n = G_Vec.len();
 
+    append_statement(transcript, &A, &matrixpoint_vector_mul(&A, &w));
+
     let mut L_Vec: Vec<Vec<RistrettoPoint>> = Vec::new();
     let mut R_Vec: Vec<Vec<RistrettoPoint>> = Vec::new();
 
@@ -99,6 +117,8 @@ pub fn create_lmpa_noZK(
     zero: RistrettoPoint,
 ) -> lmpa_noZK
 {
+    append_statement(transcript, &A, &t);
+
     let mut u_proof: Vec<Vec<Vec<RistrettoPoint>>> = Vec::new();
     while n >= k {
         let chunk_size = n/k;
@@ -235,6 +255,8 @@ impl NoZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        append_statement(transcript, &A, &t);
+
         let mut challenge_index = 0;
 
         while n != 1 {
@@ -298,6 +320,8 @@ impl lmpa_noZK {
         one: Scalar,
         zero: RistrettoPoint,
     ) -> bool {
+        append_statement(transcript, &A, &t);
+
         let mut challenge_index = 0;
         let mut consistent = true;
         while n >= k {
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index a8ae7b4..8f71235 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -26,6 +26,8 @@ pub fn create(
 ) -> SimpleZK {
     let mut n = G_Vec.len();
 
+    no_zk::append_statement(transcript, &A, &matrixpoint_vector_mul(&A, &w));
+
     let mut rng = rand::thread_rng();
     let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
     //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
@@ -64,6 +66,7 @@ pub fn create_general(
     m: usize,
     k: usize,
 ) -> SimpleZK_general {
+    no_zk::append_statement(transcript, &A, &t);
 
     let mut rng = rand::thread_rng();
     let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
@@ -114,6 +117,8 @@ impl SimpleZK_general {
         k: usize,
     ) -> bool {
 
+        no_zk::append_statement(transcript, &A, &t);
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
@@ -142,6 +147,8 @@ impl SimpleZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        no_zk::append_statement(transcript, &A, &t);
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
-- 
2.43.0


From 258126d0a153cfe258fb53e4f7ff0269c8ec18e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 11/12] fix: verifiers return false on invalid encodings and
 wrong numbers of rounds

---
 src/copy/copy.rs      |  6 +++++-
 src/ipa/alm_zk.rs     |  5 ++++-
 src/ipa/no_zk.rs      | 16 ++++++++++++----
 src/ipa/qesa_inner.rs | 10 ++++++++--
 4 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index b065510..84a2153 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -201,7 +201,11 @@ impl Copy {
             .zip(commitments.iter())
             .map(|(alpha, commitment)| commitment * alpha)
             .sum();
-        commitment = commitment + self.C_w.decompress().unwrap();
+        let C_w = match self.C_w.decompress() {
+            Some(point) => point,
+            None => return false,
+        };
+        commitment = commitment + C_w;
 
         // 3. Modify gamma to match the new commited values
         //
diff --git a/src/ipa/alm_zk.rs b/src/ipa/alm_zk.rs
index bac1215..8196fdd 100644
--- a/src/ipa/alm_zk.rs
+++ b/src/ipa/alm_zk.rs
@@ -90,7 +90,10 @@ impl AlmZK {
         //1. Decompress the commitment (C_r)
         //
         transcript.append_message(b"C_r", self.C_r.as_bytes());
-        let C_r = self.C_r.decompress().unwrap();
+        let C_r = match self.C_r.decompress() {
+            Some(point) => point,
+            None => return false,
+        };
 
         //3. Compute challenge based on C_r
         //
diff --git a/src/ipa/no_zk.rs b/src/ipa/no_zk.rs
index c60062e..167384c 100644
--- a/src/ipa/no_zk.rs
+++ b/src/ipa/no_zk.rs
@@ -122,11 +122,19 @@ impl NoZK {
         let mut G = G_Vec.to_owned();
         let mut H = H_Vec.to_owned();
 
-        let Ls: Vec<RistrettoPoint> = self.L_vec.iter().map(|L| L.decompress().unwrap()).collect();
-        let Rs: Vec<RistrettoPoint> = self.R_vec.iter().map(|R| R.decompress().unwrap()).collect();
-        assert_eq!(n, 1 << Ls.len());
+        let Ls: Option<Vec<RistrettoPoint>> = self.L_vec.iter().map(|L| L.decompress()).collect();
+        let Rs: Option<Vec<RistrettoPoint>> = self.R_vec.iter().map(|R| R.decompress()).collect();
+        let (Ls, Rs) = match (Ls, Rs) {
+            (Some(Ls), Some(Rs)) => (Ls, Rs),
+            _ => return false,
+        };
+        // There must be one pair of points for every halving of `n`
+        let lg_n = n.trailing_zeros() as usize;
+        if !n.is_power_of_two() || Ls.len() != lg_n || Rs.len() != lg_n {
+            return false;
+        }
 
-        let mut n = 1 << Ls.len();
+        let mut n = n;
 
         transcript.append_u64(b"n", n as u64);
 
diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index c96a820..68ef8de 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -134,7 +134,10 @@ impl Inner {
         //1. Decompress the commitment (C'_w)
         //
         transcript.append_message(b"c_prime_w", self.c_prime_w.as_bytes());
-        let c_prime_w = self.c_prime_w.decompress().unwrap();
+        let c_prime_w = match self.c_prime_w.decompress() {
+            Some(point) => point,
+            None => return false,
+        };
 
         //2. Compute challenges based on C'_w
         //
@@ -154,7 +157,10 @@ impl Inner {
 
         //5. Decompress the commitment (C''_w)
         //
-        let c_prime_prime_w = self.c_prime_prime_w.decompress().unwrap();
+        let c_prime_prime_w = match self.c_prime_prime_w.decompress() {
+            Some(point) => point,
+            None => return false,
+        };
         let c_prime_w = c_prime_w - (beta - Scalar::one()) * G_Vec[0];
         transcript.append_message(b"c_prime_prime_w", c_prime_prime_w.compress().as_bytes());
 
-- 
2.43.0


From 6f45f3fa15f75acb3261065cf39929fe10bd7cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 12/12] fix: linear-map verifiers return false on proofs of the
 wrong shape

---
 src/lmpa/no_zk.rs     | 25 +++++++++++++++++++++++++
 src/lmpa/simple_zk.rs |  6 ++++++
 2 files changed, 31 insertions(+)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index fcfc70d..28523d3 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -257,6 +257,15 @@ impl NoZK {
 
         append_statement(transcript, &A, &t);
 
+        // There must be one entry per row in every halving of `n`
+        let lg_n = n.trailing_zeros() as usize;
+        if self.L_Vec.len() != lg_n || self.R_Vec.len() != lg_n {
+            return false;
+        }
+        if self.L_Vec.iter().chain(self.R_Vec.iter()).any(|row| row.len() != t.len()) {
+            return false;
+        }
+
         let mut challenge_index = 0;
 
         while n != 1 {
@@ -322,6 +331,22 @@ impl lmpa_noZK {
     ) -> bool {
         append_statement(transcript, &A, &t);
 
+        // There must be `2k-1` terms with one entry per row in every round
+        let mut rounds = 0;
+        let mut last_n = n;
+        while last_n >= k {
+            last_n = last_n / k;
+            rounds += 1;
+        }
+        if self.u_proof_Block.len() != rounds || self.w_Vec.len() != last_n {
+            return false;
+        }
+        for u_vec in self.u_proof_Block.iter() {
+            if u_vec.len() != 2 * k - 1 || u_vec.iter().any(|u_l| u_l.len() != t.len()) {
+                return false;
+            }
+        }
+
         let mut challenge_index = 0;
         let mut consistent = true;
         while n >= k {
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 8f71235..468a34d 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -117,6 +117,9 @@ impl SimpleZK_general {
         k: usize,
     ) -> bool {
 
+        if self.a.len() != t.len() {
+            return false;
+        }
         no_zk::append_statement(transcript, &A, &t);
 
         for element in self.a.iter() {
@@ -147,6 +150,9 @@ impl SimpleZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        if self.a.len() != t.len() {
+            return false;
+        }
         no_zk::append_statement(transcript, &A, &t);
 
         for element in self.a.iter() {
-- 
2.43.0

