From ec1e0923a179ea40e63b9bce0e9b0f9fc14e3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:44 +0000
Subject: [PATCH 01/16] hooks: observation and fault-injection accessors behind
 --cfg vp_hooks

---
 src/r1cs/prover.rs   | 39 +++++++++++++++++++++++++++++++++++++++
 src/r1cs/verifier.rs | 23 +++++++++++++++++++++++
 2 files changed, 62 insertions(+)

diff --git a/src/r1cs/prover.rs b/src/r1cs/prover.rs
index 1d05bc8..2be6512 100644
--- a/src/r1cs/prover.rs
+++ b/src/r1cs/prover.rs
@@ -761,3 +761,42 @@ impl<'a, 'b> RandomizedConstraintSystem for RandomizingProver<'a, 'b> {
         self.prover.transcript.challenge_scalar(label)
     }
 }
+
+/// Observation and fault-injection hooks, compiled only with `--cfg vp_hooks`.
+#[cfg(vp_hooks)]
+impl<'a, 'b> Prover<'a, 'b> {
+    pub fn vp_constraints(&self) -> Vec<LinearCombination> {
+        self.constraints.clone()
+    }
+
+    /// Left, right and output wire values of all multipliers and values of the committed variables
+    pub fn vp_assignments(
+        &self,
+    ) -> (
+        Vec<FieldElement>,
+        Vec<FieldElement>,
+        Vec<FieldElement>,
+        Vec<FieldElement>,
+    ) {
+        (
+            self.a_L.iter().cloned().collect(),
+            self.a_R.iter().cloned().collect(),
+            self.a_O.iter().cloned().collect(),
+            self.v.iter().cloned().collect(),
+        )
+    }
+
+    /// Overwrite the wire values of a multiplier
+    pub fn vp_set_multiplier(&mut self, i: usize, l: FieldElement, r: FieldElement, o: FieldElement) {
+        self.a_L[i] = l;
+        self.a_R[i] = r;
+        self.a_O[i] = o;
+    }
+}
+
+#[cfg(vp_hooks)]
+impl<'a, 'b> RandomizingProver<'a, 'b> {
+    pub fn vp_prover(&mut self) -> &mut Prover<'a, 'b> {
+        &mut self.prover
+    }
+}
diff --git a/src/r1cs/verifier.rs b/src/r1cs/verifier.rs
index e8e0fe1..62dd229 100644
--- a/src/r1cs/verifier.rs
+++ b/src/r1cs/verifier.rs
@@ -598,3 +598,26 @@ impl<'a, 'b> RandomizedConstraintSystem for RandomizingVerifier<'a> {
         self.verifier.transcript.challenge_scalar(label)
     }
 }
+
+/// Observation hooks, compiled only with `--cfg vp_hooks`.
+#[cfg(vp_hooks)]
+impl<'a> Verifier<'a> {
+    pub fn vp_constraints(&self) -> Vec<LinearCombination> {
+        self.constraints.clone()
+    }
+
+    pub fn vp_num_multipliers(&self) -> usize {
+        self.num_vars
+    }
+
+    pub fn vp_commitments(&self) -> Vec<G1> {
+        self.V.clone()
+    }
+}
+
+#[cfg(vp_hooks)]
+impl<'a> RandomizingVerifier<'a> {
+    pub fn vp_verifier(&mut self) -> &mut Verifier<'a> {
+        &mut self.verifier
+    }
+}
-- 
2.43.0


From f4bd96eb9231ebeac012edf90840c80722608d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:14 +0000
Subject: [PATCH 02/16] fix: reject inner product proofs with different number
 of L and R instead of panicking

---
 src/ipp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ipp.rs b/src/ipp.rs
index 80807f1..e644faa 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -271,6 +271,9 @@ impl IPP {
             // and this check prevents overflow in 1<<lg_n below.
             return Err(R1CSError::VerificationError);
         }
+        if R_vec.len() != lg_n {
+            return Err(R1CSError::VerificationError);
+        }
         if n != (1 << lg_n) {
             return Err(R1CSError::VerificationError);
         }
-- 
2.43.0


From 8d20166f36c8bd771acc9165f5628cb325b90474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:25 +0000
Subject: [PATCH 03/16] fix: verify proofs of circuits with at most one
 multiplier (no inner product rounds)

---
 src/ipp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index e644faa..fb29abe 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -295,7 +295,12 @@ impl IPP {
         let mut challenges_sq = Vec::with_capacity(lg_n);
         let mut challenges_inv_sq = Vec::with_capacity(lg_n);
 
-        let (challenges_inv, product_chal_inv) = FieldElement::batch_invert(&challenges);
+        // `batch_invert` does not accept an empty slice, there are no rounds when n = 1
+        let (challenges_inv, product_chal_inv) = if challenges.is_empty() {
+            (vec![], FieldElement::one())
+        } else {
+            FieldElement::batch_invert(&challenges)
+        };
         for i in 0..challenges.len() {
             challenges_sq.push(challenges[i].square());
             challenges_inv_sq.push(challenges_inv[i].square());
-- 
2.43.0


From e108f179bb2ceb107e81aa8228f299c6e6cb4865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:25 +0000
Subject: [PATCH 04/16] fix: return InvalidGeneratorsLength when H is too short
 instead of panicking

---
 src/r1cs/prover.rs   | 4 ++--
 src/r1cs/verifier.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/prover.rs b/src/r1cs/prover.rs
index 2be6512..511ff04 100644
--- a/src/r1cs/prover.rs
+++ b/src/r1cs/prover.rs
@@ -329,7 +329,7 @@ impl<'a, 'b> Prover<'a, 'b> {
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
-        if G.len() < n1 {
+        if G.len() < n1 || H.len() < n1 {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
@@ -376,7 +376,7 @@ impl<'a, 'b> Prover<'a, 'b> {
         let padded_n = n.next_power_of_two();
         let pad = padded_n - n;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
diff --git a/src/r1cs/verifier.rs b/src/r1cs/verifier.rs
index 62dd229..701a2f0 100644
--- a/src/r1cs/verifier.rs
+++ b/src/r1cs/verifier.rs
@@ -294,7 +294,7 @@ impl<'a> Verifier<'a> {
 
         use std::iter;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
-- 
2.43.0


From d281379264b178f99dc6a96bac143aa75eeff215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:49 +0000
Subject: [PATCH 05/16] fix: IPP::verify_ipp returns an error for wrong number
 of rounds or vector lengths instead of panicking

---
 src/ipp.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index fb29abe..983f002 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -215,7 +215,12 @@ impl IPP {
         L_vec: &G1Vector,
         R_vec: &G1Vector,
     ) -> Result<(), R1CSError> {
-        let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        // All of the input vectors must have length n.
+        if G.len() != n || H.len() != n || G_factors.len() != n || H_factors.len() != n {
+            return Err(R1CSError::VerificationError);
+        }
+
+        let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -250,7 +255,7 @@ impl IPP {
 
         let expected_P = G1Vector::from(_2)
             .multi_scalar_mul_var_time(&_1.into())
-            .unwrap();
+            .map_err(|_| R1CSError::VerificationError)?;
 
         if expected_P == *P {
             Ok(())
-- 
2.43.0


From 94a13f381c438a6001b5efc4be2c335912f655ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:49 +0000
Subject: [PATCH 06/16] fix: constrain the input of Poseidon's inverse S-box

---
 src/r1cs/gadgets/helper_constraints/poseidon.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/poseidon.rs b/src/r1cs/gadgets/helper_constraints/poseidon.rs
index 5599826..8065643 100644
--- a/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -189,6 +189,9 @@ impl SboxType {
         let (var_l, _) = cs.allocate_single(val_l)?;
         let (var_r, var_o) = cs.allocate_single(val_r)?;
 
+        // Ensure `var_l` is same as `inp_plus_const`
+        cs.constrain(inp_plus_const - var_l);
+
         // Ensure `inp_plus_const` is not zero
         is_nonzero_gadget(cs, var_l, var_r)?;
 
-- 
2.43.0


From 24dc2d547bc57bdc094eaa7d522b30dbc9ee34cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:49 +0000
Subject: [PATCH 07/16] fix: constrain the difference in the Hamming distance
 gadget

---
 src/r1cs/gadgets/hamming_distance.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index 7c7d433..917dcfc 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -42,6 +42,9 @@ pub fn hamming_distance_gadget<CS: ConstraintSystem>(
         let (_, var_o) = cs.allocate_single(val_diff_inv)?;
         let var_1_or_0 = var_o.unwrap();
 
+        // var_diff should be same as diff
+        cs.constrain(diff - var_diff);
+
         // diff * (1 - 1_or_0) = 0
         let one_minus_var_1_or_0 = Variable::One() - var_1_or_0;
         let (_, _, o) = cs.multiply(var_diff.into(), one_minus_var_1_or_0);
-- 
2.43.0


From be0e4f14dc5c7fd9277d5806b711e5a6206fb6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:49 +0000
Subject: [PATCH 08/16] fix: link the bits of the bitmap in set membership to
 the committed bits

---
 src/r1cs/gadgets/set_membership_alt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 1ac5c5a..90f6508 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -69,6 +69,8 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
                 .as_ref()
                 .map(|bit| (bit.clone(), items[i].into())),
         )?;
+        // `bit_var` should be same as the committed bit
+        cs.constrain(bit_var - vector[i].variable);
         constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
 
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
-- 
2.43.0


From e570297d272e388f5661f106ed80e651bff08928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:50 +0000
Subject: [PATCH 09/16] fix: Hamming distance and inverse S-box gadgets do not
 mix up with a pending single allocation

---
 src/r1cs/gadgets/hamming_distance.rs            | 6 +++---
 src/r1cs/gadgets/helper_constraints/poseidon.rs | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index 917dcfc..4c019ad 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -38,9 +38,9 @@ pub fn hamming_distance_gadget<CS: ConstraintSystem>(
         };
 
         // diff * diff_inv = 1_or_0 depending on diff being non-zero or zero
-        let (var_diff, _) = cs.allocate_single(val_diff)?;
-        let (_, var_o) = cs.allocate_single(val_diff_inv)?;
-        let var_1_or_0 = var_o.unwrap();
+        // `allocate_multiplier` since `allocate_single` might use an already pending multiplier
+        let vals = val_diff.and_then(|d| val_diff_inv.map(|d_inv| (d, d_inv)));
+        let (var_diff, _, var_1_or_0) = cs.allocate_multiplier(vals)?;
 
         // var_diff should be same as diff
         cs.constrain(diff - var_diff);
diff --git a/src/r1cs/gadgets/helper_constraints/poseidon.rs b/src/r1cs/gadgets/helper_constraints/poseidon.rs
index 8065643..3b783ea 100644
--- a/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -186,8 +186,9 @@ impl SboxType {
         let val_l = cs.evaluate_lc(&inp_plus_const);
         let val_r = val_l.clone().map(|l| l.inverse());
 
-        let (var_l, _) = cs.allocate_single(val_l)?;
-        let (var_r, var_o) = cs.allocate_single(val_r)?;
+        // `allocate_multiplier` since `allocate_single` might use an already pending multiplier
+        let vals = val_l.and_then(|l| val_r.map(|r| (l, r)));
+        let (var_l, var_r, var_o) = cs.allocate_multiplier(vals)?;
 
         // Ensure `var_l` is same as `inp_plus_const`
         cs.constrain(inp_plus_const - var_l);
@@ -196,7 +197,7 @@ impl SboxType {
         is_nonzero_gadget(cs, var_l, var_r)?;
 
         // Constrain product of ``inp_plus_const` and its inverse to be 1.
-        constrain_lc_with_scalar::<CS>(cs, var_o.unwrap().into(), &FieldElement::one());
+        constrain_lc_with_scalar::<CS>(cs, var_o.into(), &FieldElement::one());
 
         Ok(var_r)
     }
-- 
2.43.0


From 87345133b8287971cc3ede9cd2cafda6e1e0695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:30 +0000
Subject: [PATCH 10/16] fix: Merkle inclusion gadgets refuse a path whose
 length differs from the tree depth

---
 .../helper_constraints/sparse_merkle_tree_4_ary.rs    | 11 +++++++++++
 .../helper_constraints/sparse_merkle_tree_8_ary.rs    | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 5d0c8cc..1783109 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -262,6 +262,17 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
+    if proof_nodes.len() != depth * 3 {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "Expected {} proof nodes for depth {} but found {}",
+                depth * 3,
+                depth,
+                proof_nodes.len()
+            ),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     let statics: Vec<LinearCombination> = statics.into_iter().map(|s| s.into()).collect();
diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index 960c593..0709e98 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -286,6 +286,17 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
+    if proof_nodes.len() != depth * 7 {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "Expected {} proof nodes for depth {} but found {}",
+                depth * 7,
+                depth,
+                proof_nodes.len()
+            ),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
-- 
2.43.0


From 4ae5e2e46742c3a5da284866aeb8d8ecbaa0c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:30 +0000
Subject: [PATCH 11/16] fix: verify_proof of sparse Merkle trees returns false
 for proofs of wrong length

---
 .../gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs   | 5 +++++
 .../gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 1783109..a463942 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -178,6 +178,11 @@ impl<'a> VanillaSparseMerkleTree_4<'a> {
         proof: &[ProofNode_4_ary],
         root: Option<&FieldElement>,
     ) -> bool {
+        // Proof should have a node for each level
+        if proof.len() != self.depth {
+            return false;
+        }
+
         let mut path = Self::leaf_index_to_path(&idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index 0709e98..97602ae 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -193,6 +193,11 @@ impl<'a> VanillaSparseMerkleTree_8<'a> {
         proof: &[ProofNode_8_ary],
         root: Option<&FieldElement>,
     ) -> bool {
+        // Proof should have a node for each level
+        if proof.len() != self.depth {
+            return false;
+        }
+
         let mut path = Self::leaf_index_to_path(idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
-- 
2.43.0


From 972a5cc5bef435685febd5a0e4efd3e3b22e2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:30 +0000
Subject: [PATCH 12/16] fix: return proving errors from gen_proof functions
 instead of panicking

---
 src/r1cs/gadgets/hamming_distance.rs         | 2 +-
 src/r1cs/gadgets/randomizer.rs               | 2 +-
 src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index 4c019ad..2c5e48f 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -128,7 +128,7 @@ pub fn gen_proof_for_hamming_distance(
         &prover.num_multipliers(),
         &prover.num_constraints()
     );
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     println!("Proving time is {:?}", start.elapsed());
     Ok((proof, comms))
 }
diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index 05ab4bc..e33db98 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -273,7 +273,7 @@ pub fn gen_proof_for_randomizer(
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 988c2c1..7f62eaa 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -168,7 +168,7 @@ pub fn gen_proof_of_leaf_inclusion_4_ary_merkle_tree<R: RngCore + CryptoRng>(
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
-- 
2.43.0


From 29bd2775065fad381936c2de42bd82d0b01660b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:01 +0000
Subject: [PATCH 13/16] fix: gadget verifiers return an error for a wrong
 number of commitments instead of panicking or ignoring the surplus

---
 src/errors.rs                                | 17 +++++++++++++++++
 src/r1cs/gadgets/bound_check.rs              |  2 ++
 src/r1cs/gadgets/mimc.rs                     |  2 ++
 src/r1cs/gadgets/non_zero.rs                 |  2 ++
 src/r1cs/gadgets/poseidon_hash.rs            |  6 ++++++
 src/r1cs/gadgets/randomizer.rs               |  2 ++
 src/r1cs/gadgets/set_membership.rs           |  2 ++
 src/r1cs/gadgets/set_membership_alt.rs       |  2 ++
 src/r1cs/gadgets/set_non_membership.rs       |  2 ++
 src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs |  2 ++
 src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs |  2 ++
 11 files changed, 41 insertions(+)

diff --git a/src/errors.rs b/src/errors.rs
index 3480211..c418a41 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -53,3 +53,20 @@ macro_rules! check_for_input_and_randomness_length {
         }
     }};
 }
+
+#[macro_export]
+macro_rules! check_for_commitments_length {
+    ( $commitments:expr, $expected_length:expr ) => {{
+        if $commitments.len() != $expected_length {
+            Err(R1CSError::GadgetError {
+                description: format!(
+                    "Expected {} commitments but found {}",
+                    $expected_length,
+                    $commitments.len()
+                ),
+            })
+        } else {
+            Ok(())
+        }
+    }};
+}
diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index ed5d623..2641f54 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -98,6 +98,8 @@ pub fn verify_bounded_num(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 3)?;
+
     let var_v = verifier.commit(commitments.remove(0));
     let quantity_v = AllocatedQuantity {
         variable: var_v,
diff --git a/src/r1cs/gadgets/mimc.rs b/src/r1cs/gadgets/mimc.rs
index bfe1a11..cd71b04 100644
--- a/src/r1cs/gadgets/mimc.rs
+++ b/src/r1cs/gadgets/mimc.rs
@@ -62,6 +62,8 @@ pub fn verify_mimc_preimage(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_l = verifier.commit(commitments.remove(0));
     let var_r = verifier.commit(commitments.remove(0));
 
diff --git a/src/r1cs/gadgets/non_zero.rs b/src/r1cs/gadgets/non_zero.rs
index b378ea4..5a185a7 100644
--- a/src/r1cs/gadgets/non_zero.rs
+++ b/src/r1cs/gadgets/non_zero.rs
@@ -45,6 +45,8 @@ pub fn verify_non_zero_val(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_val = verifier.commit(commitments.remove(0));
     let alloc_scal = AllocatedQuantity {
         variable: var_val,
diff --git a/src/r1cs/gadgets/poseidon_hash.rs b/src/r1cs/gadgets/poseidon_hash.rs
index 8ccfb1d..34ed6e9 100644
--- a/src/r1cs/gadgets/poseidon_hash.rs
+++ b/src/r1cs/gadgets/poseidon_hash.rs
@@ -126,6 +126,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_2(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let lv = verifier.commit(commitments.remove(0));
     let rv = verifier.commit(commitments.remove(0));
 
@@ -270,6 +272,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_4(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 4)?;
+
     let mut allocs = vec![];
 
     for _ in 0..4 {
@@ -413,6 +417,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_8(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 8)?;
+
     let mut vars = vec![];
 
     for _ in 0..8 {
diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index e33db98..8050ad6 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -296,6 +296,8 @@ pub fn verify_proof_for_randomizer(
     G: &G1Vector,
     H: &G1Vector,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 1 + modified_indices.len() * (1 + tree_depth * 3))?;
+
     let mut verifier_transcript = Transcript::new(transcript_label);
     let mut verifier = Verifier::new(&mut verifier_transcript);
 
diff --git a/src/r1cs/gadgets/set_membership.rs b/src/r1cs/gadgets/set_membership.rs
index 8417be2..77fe93c 100644
--- a/src/r1cs/gadgets/set_membership.rs
+++ b/src/r1cs/gadgets/set_membership.rs
@@ -83,6 +83,8 @@ pub fn verify_set_membership(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, set.len() + 1)?;
+
     let set_length = set.len();
 
     let mut diff_vars: Vec<AllocatedQuantity> = vec![];
diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 90f6508..2aa0e6a 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -145,6 +145,8 @@ pub fn verify_set_membership_alt(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, set.len() + 1)?;
+
     let set_length = set.len();
 
     let mut bit_vars = vec![];
diff --git a/src/r1cs/gadgets/set_non_membership.rs b/src/r1cs/gadgets/set_non_membership.rs
index 6750af0..5a36269 100644
--- a/src/r1cs/gadgets/set_non_membership.rs
+++ b/src/r1cs/gadgets/set_non_membership.rs
@@ -91,6 +91,8 @@ pub fn verify_set_non_membership(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2 * set.len() + 1)?;
+
     let set_length = set.len();
 
     let mut diff_vars: Vec<AllocatedQuantity> = vec![];
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 7f62eaa..a5ad1e8 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -97,6 +97,8 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2 + tree_depth * 3)?;
+
     let var_leaf = verifier.commit(commitments.remove(0));
 
     let var_leaf_idx = verifier.commit(commitments.remove(0));
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
index 212b7ff..107d3da 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
@@ -96,6 +96,8 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2 + tree_depth * 7)?;
+
     let var_leaf = verifier.commit(commitments.remove(0));
 
     let var_leaf_idx = verifier.commit(commitments.remove(0));
-- 
2.43.0


From 85d10b77daf8e13911b5701d7603aa58e1cd373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:01 +0000
Subject: [PATCH 14/16] fix: randomizer gadget returns an error for nodes
 missing in the db instead of panicking

---
 src/r1cs/gadgets/randomizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index 8050ad6..568ac2d 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -140,7 +140,7 @@ pub fn randomizer_gadget<CS: ConstraintSystem>(
         let mut cur_prefix: Vec<u8> = vec![];
 
         for pos in path_for_get.iter() {
-            let children = new_db.get(&cur_node.to_bytes()).unwrap().to_vec();
+            let children = new_db.get(&cur_node.to_bytes())?.to_vec();
             cur_node = children[*pos as usize].clone();
             for (k, c) in children.iter().enumerate() {
                 let mut key = cur_prefix.clone();
-- 
2.43.0


From 7f32a0f7fe33987e54095e344844e259fa583254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:31 +0000
Subject: [PATCH 15/16] fix: correct field elements for large u64 in bound
 check, set membership and vector sum gadgets

---
 src/r1cs/gadgets/bound_check.rs               | 23 +++++++++++--------
 .../gadgets/helper_constraints/vector_sum.rs  |  3 ++-
 src/r1cs/gadgets/set_membership_alt.rs        |  7 +++---
 src/utils/mod.rs                              |  7 ++++++
 4 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index 2641f54..b170f8b 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -3,6 +3,7 @@ use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
+use crate::utils::field_elem_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -23,12 +24,16 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     // b = max - v
     // a + b = max - min
 
-    cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
+    cs.constrain(v.variable - LinearCombination::from(field_elem_from_u64(min)) - a.variable);
 
-    cs.constrain(LinearCombination::from(FieldElement::from(max)) - v.variable - b.variable);
+    cs.constrain(LinearCombination::from(field_elem_from_u64(max)) - v.variable - b.variable);
 
     // Constrain a + b to be same as max - min.
-    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &FieldElement::from(max - min));
+    constrain_lc_with_scalar::<CS>(
+        cs,
+        a.variable + b.variable,
+        &field_elem_from_u64(max - min),
+    );
 
     // Constrain a in [0, 2^n)
     positive_no_gadget(cs, a, n)?;
@@ -55,26 +60,26 @@ pub fn prove_bounded_num<R: RngCore + CryptoRng>(
     let mut comms = vec![];
 
     let (com_v, var_v) = prover.commit(
-        val.into(),
+        field_elem_from_u64(val),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
     );
     let quantity_v = AllocatedQuantity {
         variable: var_v,
-        assignment: Some(val.into()),
+        assignment: Some(field_elem_from_u64(val)),
     };
     comms.push(com_v);
 
-    let (com_a, var_a) = prover.commit(a.into(), FieldElement::random());
+    let (com_a, var_a) = prover.commit(field_elem_from_u64(a), FieldElement::random());
     let quantity_a = AllocatedQuantity {
         variable: var_a,
-        assignment: Some(a.into()),
+        assignment: Some(field_elem_from_u64(a)),
     };
     comms.push(com_a);
 
-    let (com_b, var_b) = prover.commit(b.into(), FieldElement::random());
+    let (com_b, var_b) = prover.commit(field_elem_from_u64(b), FieldElement::random());
     let quantity_b = AllocatedQuantity {
         variable: var_b,
-        assignment: Some(b.into()),
+        assignment: Some(field_elem_from_u64(b)),
     };
     comms.push(com_b);
 
diff --git a/src/r1cs/gadgets/helper_constraints/vector_sum.rs b/src/r1cs/gadgets/helper_constraints/vector_sum.rs
index 3fb08d8..081c2ae 100644
--- a/src/r1cs/gadgets/helper_constraints/vector_sum.rs
+++ b/src/r1cs/gadgets/helper_constraints/vector_sum.rs
@@ -1,5 +1,6 @@
 use crate::errors::R1CSError;
 use crate::r1cs::{ConstraintSystem, Variable};
+use crate::utils::field_elem_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 
 // Ensure sum of items of `vector` is `sum`
@@ -8,7 +9,7 @@ pub fn vector_sum_constraints<CS: ConstraintSystem>(
     vector: Vec<Variable>,
     sum: u64,
 ) -> Result<(), R1CSError> {
-    let mut constraints = vec![(Variable::One(), FieldElement::from(sum).negation())];
+    let mut constraints = vec![(Variable::One(), field_elem_from_u64(sum).negation())];
     for i in vector {
         constraints.push((i, FieldElement::one()));
     }
diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 2aa0e6a..10102ed 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -4,6 +4,7 @@ use super::helper_constraints::vector_sum::vector_sum_constraints;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
+use crate::utils::field_elem_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -67,11 +68,11 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
             vector[i]
                 .assignment
                 .as_ref()
-                .map(|bit| (bit.clone(), items[i].into())),
+                .map(|bit| (bit.clone(), field_elem_from_u64(items[i]))),
         )?;
         // `bit_var` should be same as the committed bit
         cs.constrain(bit_var - vector[i].variable);
-        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &field_elem_from_u64(items[i]));
 
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
 
@@ -125,7 +126,7 @@ pub fn prove_set_membership_alt<R: RngCore + CryptoRng>(
     // The bit vector sum should be 1
     vector_sum_constraints(prover, bit_vars, 1)?;
 
-    let _value = FieldElement::from(value);
+    let _value = field_elem_from_u64(value);
     let (com_value, var_value) = prover.commit(
         _value.clone(),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 8b57797..ef82fcd 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,6 +22,13 @@ pub fn get_generators(prefix: &str, n: usize) -> Vec<G1> {
     gens
 }
 
+/// `FieldElement::from::<u64>` is not correct for numbers not fitting in a limb of the big number
+pub fn field_elem_from_u64(n: u64) -> FieldElement {
+    let mut bytes = [0u8; MODBYTES];
+    bytes[MODBYTES - 8..].copy_from_slice(&n.to_be_bytes());
+    FieldElement::from(&bytes)
+}
+
 pub fn gen_challenges(input: &[&G1], state: &mut Vec<u8>, n: usize) -> Vec<FieldElement> {
     let mut r = Vec::<FieldElement>::with_capacity(n);
     for i in 0..input.len() {
-- 
2.43.0


From b0c7b24fc19a4cb137bad341cdb02ac1457f72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:47 +0000
Subject: [PATCH 16/16] fix: inner product argument gives correct L, R and P
 for scalars like 2^64-1

---
 src/ipp.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index 983f002..371f50d 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -82,26 +82,30 @@ impl IPP {
             L_0.extend(b_R.hadamard_product(&H_factors_L).unwrap());
             L_0.push(c_L);
 
-            let mut L_1 = vec![];
-            L_1.extend(G_R.iter());
-            L_1.extend(H_L.iter());
-            L_1.push(&Q);
+            let mut L_1: Vec<G1> = vec![];
+            L_1.extend(G_R.iter().cloned());
+            L_1.extend(H_L.iter().cloned());
+            L_1.push(Q.clone());
 
-            let L_0: Vec<&FieldElement> = L_0.iter().map(|f| f).collect();
-            let L = G1Vector::inner_product_var_time_with_ref_vecs(L_1, L_0).unwrap();
+            // The scalars of the first round are chosen by the caller and can be of a form like 2^64 - 1
+            // for which the variable time multiplication (wNAF without carry) gives a wrong result.
+            let L = G1Vector::from(L_1)
+                .inner_product_const_time(&L_0.into())
+                .unwrap();
 
             let mut R_0: Vec<FieldElement> = vec![];
             R_0.extend(a_R.hadamard_product(&G_factors_L).unwrap());
             R_0.extend(b_L.hadamard_product(&H_factors_R).unwrap());
             R_0.push(c_R);
 
-            let mut R_1 = vec![];
-            R_1.extend(G_L.iter());
-            R_1.extend(H_R.iter());
-            R_1.push(&Q);
+            let mut R_1: Vec<G1> = vec![];
+            R_1.extend(G_L.iter().cloned());
+            R_1.extend(H_R.iter().cloned());
+            R_1.push(Q.clone());
 
-            let R_0: Vec<&FieldElement> = R_0.iter().map(|f| f).collect();
-            let R = G1Vector::inner_product_var_time_with_ref_vecs(R_1, R_0).unwrap();
+            let R = G1Vector::from(R_1)
+                .inner_product_const_time(&R_0.into())
+                .unwrap();
 
             transcript.commit_point(b"L", &L);
             transcript.commit_point(b"R", &R);
@@ -254,7 +258,7 @@ impl IPP {
         _2.append(&mut R_vec.clone());
 
         let expected_P = G1Vector::from(_2)
-            .multi_scalar_mul_var_time(&_1.into())
+            .inner_product_const_time(&_1.into())
             .map_err(|_| R1CSError::VerificationError)?;
 
         if expected_P == *P {
-- 
2.43.0

