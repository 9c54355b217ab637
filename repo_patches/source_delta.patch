From 6c77d8aae3878785cba28d0ced29f079058a7838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 1/5] fix: mask degree-2t sharing before opening in Shamir
 mul_open

---
 co-circom/co-plonk/src/lib.rs               |  2 +-
 co-circom/co-plonk/src/round2.rs            |  4 ++--
 mpc-core/src/protocols/shamir/arithmetic.rs | 24 ++++++++++++++-------
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/co-circom/co-plonk/src/lib.rs b/co-circom/co-plonk/src/lib.rs
index 4b0da35..fabf5a9 100644
--- a/co-circom/co-plonk/src/lib.rs
+++ b/co-circom/co-plonk/src/lib.rs
@@ -252,7 +252,7 @@ where
     {
         let domain_size = zkey.domain_size;
         // TODO check and explain numbers
-        let num_pairs = domain_size * 222 + 15;
+        let num_pairs = domain_size * 227 + 17;
         let preprocessing = ShamirPreprocessing::new(num_parties, threshold, num_pairs, &nets[0])?;
         let mut state = ShamirState::from(preprocessing);
         // execute prover in MPC
diff --git a/co-circom/co-plonk/src/round2.rs b/co-circom/co-plonk/src/round2.rs
index b57a310..9555bf5 100644
--- a/co-circom/co-plonk/src/round2.rs
+++ b/co-circom/co-plonk/src/round2.rs
@@ -158,8 +158,8 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round2<'a, P
 
         let batched_mul_span = tracing::debug_span!("buffer z network round").entered();
         // TODO check and explain numbers
-        let mut state0 = state.fork(zkey.domain_size * 6 + 2)?;
-        let mut state1 = state.fork(zkey.domain_size * 7 + 2)?;
+        let mut state0 = state.fork(zkey.domain_size * 8 + 3)?;
+        let mut state1 = state.fork(zkey.domain_size * 10 + 3)?;
         let (num, den) = mpc_net::join(
             || T::array_prod_mul(false, &n1, &n2, &n3, &nets[0], &mut state0),
             || T::array_prod_mul(true, &d1, &d2, &d3, &nets[1], &mut state1),
diff --git a/mpc-core/src/protocols/shamir/arithmetic.rs b/mpc-core/src/protocols/shamir/arithmetic.rs
index 82fe0a8..dc00492 100644
--- a/mpc-core/src/protocols/shamir/arithmetic.rs
+++ b/mpc-core/src/protocols/shamir/arithmetic.rs
@@ -246,6 +246,15 @@ fn clone_from_slice(
 }
 */
 
+/// Returns this party's share of a random degree-2t sharing of zero.
+fn zero_share_2t<F: PrimeField, N: Network>(
+    net: &N,
+    state: &mut ShamirState<F>,
+) -> eyre::Result<F> {
+    let (r_t, r_2t) = state.get_pair(net)?;
+    Ok(r_2t - r_t)
+}
+
 /// This function performs a multiplication directly followed by an opening. This is preferred over Open(Mul(\[x\], \[y\])), since Mul performs resharing of the result for degree reduction. Thus, mul_open(\[x\], \[y\]) requires less communication in fewer rounds compared to Open(Mul(\[x\], \[y\])).
 fn mul_open<F: PrimeField, N: Network>(
     a: ShamirShare<F>,
@@ -253,8 +262,10 @@ fn mul_open<F: PrimeField, N: Network>(
     net: &N,
     state: &mut ShamirState<F>,
 ) -> eyre::Result<F> {
-    let mul = a * b;
-    let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul.a)?;
+    // The degree-2t sharing of the product must be masked before it is opened, otherwise the
+    // polynomial a(x) * b(x), and thus its factors, are revealed.
+    let mul = a.a * b.a + zero_share_2t(net, state)?;
+    let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul)?;
     Ok(super::reconstruct(&rcv, &state.open_lagrange_2t))
 }
 
@@ -265,12 +276,9 @@ pub fn mul_open_vec<F: PrimeField, N: Network>(
     net: &N,
     state: &mut ShamirState<F>,
 ) -> eyre::Result<Vec<F>> {
-    let mul = a
-        .iter()
-        .zip(b.iter())
-        .map(|(a, b)| a * b)
-        .collect::<Vec<_>>();
-    let mul = ShamirShare::convert_vec(mul);
+    let mul = izip!(a, b)
+        .map(|(a, b)| Ok(a.a * b.a + zero_share_2t(net, state)?))
+        .collect::<eyre::Result<Vec<_>>>()?;
 
     let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul)?;
 
-- 
2.43.0


From c5f13a1c136e9f20df3ac87ff96c9269c96d95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 2/5] fix: reject a wrong number of public inputs in
 Groth16::verify

arkworks 0.6 silently ignores surplus public inputs and treats missing ones
as zero, so a proof verified for input vectors that the key is not for.
---
 co-circom/co-groth16/src/verifier.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/co-circom/co-groth16/src/verifier.rs b/co-circom/co-groth16/src/verifier.rs
index 40fd42e..fc86818 100644
--- a/co-circom/co-groth16/src/verifier.rs
+++ b/co-circom/co-groth16/src/verifier.rs
@@ -14,11 +14,23 @@ use co_circom_types::VerificationError;
 impl<P: Pairing> Groth16<P> {
     /// Verify a Groth16 proof.
     /// This method is a wrapper arkworks Groth16 and does not use MPC.
+    ///
+    /// # Errors
+    /// Returns [`VerificationError::Malformed`] if the number of public inputs is not the one the
+    /// verifying key is for, and [`VerificationError::InvalidProof`] if the proof does not verify.
     pub fn verify(
         vk: &VerifyingKey<P>,
         proof: &Proof<P>,
         public_inputs: &[P::ScalarField],
     ) -> Result<(), VerificationError> {
+        // arkworks ignores surplus public inputs and takes missing ones as zero
+        if public_inputs.len() + 1 != vk.gamma_abc_g1.len() {
+            return Err(VerificationError::Malformed(eyre::eyre!(
+                "amount of public inputs does not match with the verifying key! Expected {}, but got {}",
+                vk.gamma_abc_g1.len().saturating_sub(1),
+                public_inputs.len()
+            )));
+        }
         let vk = ark_groth16::prepare_verifying_key(vk);
         let proof_valid = ArkworksGroth16::<P>::verify_proof(&vk, proof, public_inputs)
             .map_err(eyre::Report::from)?;
-- 
2.43.0


From 01f5c96a93432ca1991cd8e5bd1cdd8c377c8181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 3/5] fix: prove PLONK circuits without public inputs

---
 co-circom/co-plonk/src/round3.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/co-circom/co-plonk/src/round3.rs b/co-circom/co-plonk/src/round3.rs
index 20fa232..5f4f71a 100644
--- a/co-circom/co-plonk/src/round3.rs
+++ b/co-circom/co-plonk/src/round3.rs
@@ -9,6 +9,7 @@ use crate::{
 use ark_ec::CurveGroup;
 use ark_ec::pairing::Pairing;
 use ark_ff::Field;
+use ark_poly::EvaluationDomain;
 use circom_types::plonk::Zkey;
 use itertools::izip;
 use mpc_core::MpcState;
@@ -262,6 +263,16 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
         let mut cp = Vec::with_capacity(len);
         let id = state.id();
 
+        // The zkey has one Lagrange polynomial per public input. We need the first one in any case.
+        let computed_l0;
+        let l0 = if let Some(l0) = zkey.lagrange.first() {
+            &l0.evaluations
+        } else {
+            let coeffs = vec![domains.domain.size_inv; zkey.domain_size];
+            computed_l0 = domains.extended_domain.fft(&coeffs);
+            &computed_l0
+        };
+
         let pow_root_of_unity = domains.root_of_unity_pow;
         let pow_plus2_root_of_unity = domains.root_of_unity_pow_2;
         // We do not want to have any network operation in here to reduce MPC rounds. To enforce this, we have a for_each loop here (Network operations require a result)
@@ -448,10 +459,10 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
             e3z = T::mul_with_public(e3z, challenges.alpha);
 
             let mut e4 = T::add_with_public(id, z, -P::ScalarField::one());
-            e4 = T::mul_with_public(e4, zkey.lagrange[0].evaluations[i]);
+            e4 = T::mul_with_public(e4, l0[i]);
             e4 = T::mul_with_public(e4, challenges.alpha2);
 
-            let mut e4z = T::mul_with_public(zp, zkey.lagrange[0].evaluations[i]);
+            let mut e4z = T::mul_with_public(zp, l0[i]);
             e4z = T::mul_with_public(e4z, challenges.alpha2);
 
             let mut t = T::add(e1[i], e2);
-- 
2.43.0


From dda16d46928e7476ec95c219f7629cea63b91ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 4/5] fix: refuse a PLONK witness of the wrong size instead of
 panicking

---
 co-circom/co-plonk/src/round1.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/co-circom/co-plonk/src/round1.rs b/co-circom/co-plonk/src/round1.rs
index b89de18..c5958d2 100644
--- a/co-circom/co-plonk/src/round1.rs
+++ b/co-circom/co-plonk/src/round1.rs
@@ -196,6 +196,13 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round1<'a, P
         witness: SharedWitness<P::ScalarField, T::ArithmeticShare>,
         zkey: &Zkey<P>,
     ) -> PlonkProofResult<PlonkWitness<P, T>> {
+        // The additions are not part of the witness, everything else has to be there
+        let n_witness = witness.public_inputs.len() + witness.witness.len();
+        if witness.public_inputs.len() != zkey.n_public + 1
+            || n_witness + zkey.n_additions != zkey.n_vars
+        {
+            return Err(PlonkProofError::CorruptedWitness(n_witness));
+        }
         let mut witness = PlonkWitness::new(witness, zkey.n_additions);
         // This is hard to multithread as we have to add the results
         // to the vec as they are needed for the later steps.
-- 
2.43.0


From c63c6b1df3595c11bc3800760c5a23d14d17f337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 5/5] fix: refuse an empty PLONK domain instead of overflowing

---
 co-circom/co-plonk/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/co-circom/co-plonk/src/types.rs b/co-circom/co-plonk/src/types.rs
index 2db8f31..3b596b6 100644
--- a/co-circom/co-plonk/src/types.rs
+++ b/co-circom/co-plonk/src/types.rs
@@ -70,7 +70,7 @@ fn roots_of_unity<F: PrimeField + FftField>() -> (F, Vec<F>) {
 impl<F: PrimeField> Domains<F> {
     pub(super) fn new(domain_size: usize) -> PlonkProofResult<Self> {
         tracing::debug!("building domains/roots of unity for domain size: {domain_size}");
-        if domain_size & (domain_size - 1) != 0 || domain_size == 0 {
+        if !domain_size.is_power_of_two() {
             Err(PlonkProofError::InvalidDomainSize(domain_size))
         } else {
             let mut domain = Radix2EvaluationDomain::<F>::new(domain_size)
-- 
2.43.0

