From 0ee517e8cc763c41651bd6a3d462f2628f33c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 01/19] fix: fri prover handles constant and zero polynomials

A domain of size one (no folding layer), the zero polynomial, and a
challenge under which the last folding vanishes all made generate_proof
panic.
---
 fri/src/prover.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/fri/src/prover.rs b/fri/src/prover.rs
index 29a601f..717299d 100644
--- a/fri/src/prover.rs
+++ b/fri/src/prover.rs
@@ -50,7 +50,7 @@ fn folding_phase<T: Digest + Default, F: PrimeField>(
     mut domain_size: usize,
     number_layers: usize,
 ) -> (F, Transcript<T, F>, Vec<FriLayer<F>>) {
-    let mut fri_layers: Vec<FriLayer<F>> = Vec::with_capacity(number_layers.ilog2() as usize + 1);
+    let mut fri_layers: Vec<FriLayer<F>> = Vec::with_capacity(number_layers);
     let mut transcript = Transcript::new(F::ZERO);
 
     for _ in 0..number_layers {
@@ -67,7 +67,8 @@ fn folding_phase<T: Digest + Default, F: PrimeField>(
         domain_size /= 2;
     }
 
-    assert_eq!(poly.len(), 1);
+    // the zero polynomial has no coefficient at all
+    assert!(poly.coeffs.len() <= 1);
     let constant = poly.evaluate(&F::ZERO);
     transcript.digest(constant);
 
@@ -84,10 +85,6 @@ fn query_phase<T: Digest + Default, F: PrimeField>(
     transcript: &mut Transcript<T, F>,
     fri_layers: &Vec<FriLayer<F>>,
 ) -> (Vec<Decommitment<F>>, Vec<usize>) {
-    if fri_layers.is_empty() {
-        return (vec![], vec![]);
-    }
-
     let challenge_list = transcript
         .generate_challenge_list_usize(number_of_queries)
         .iter()
@@ -143,7 +140,8 @@ pub fn generate_proof<T: Digest + Default, F: PrimeField>(
     blowup_factor: usize,
     number_of_queries: usize,
 ) -> Proof<F> {
-    let domain_size = (poly.coeffs.len() * blowup_factor).next_power_of_two();
+    // the zero polynomial is the constant 0
+    let domain_size = (poly.coeffs.len().max(1) * blowup_factor).next_power_of_two();
     let coset = F::GENERATOR;
     let number_of_layers = domain_size.ilog2() as usize;
 
-- 
2.43.0


From 41603ac43a3f0fd6de1d922feb400d0e9e94cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 02/19] fix: fri verifier checks openings against the committed
 roots

verify_query compared a Merkle path only with the root carried by the path
itself, so the committed layer roots constrained nothing.
---
 fri/src/merkle_tree.rs |  7 +++++++
 fri/src/verifier.rs    | 13 +++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index 6a46f66..3d77934 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -15,6 +15,13 @@ pub struct MerkleProof<F: PrimeField> {
     root: F,
 }
 
+impl<F: PrimeField> MerkleProof<F> {
+    /// Checks that the proof is for the committed tree: the one with this root and depth.
+    pub fn is_for_tree(&self, root: F, depth: usize) -> bool {
+        self.root == root && self.hash_proof.len() == depth
+    }
+}
+
 /// A Merkle tree structure that supports the creation of proofs and verification of membership.
 #[derive(Debug, Clone)]
 pub struct MerkleTree<F: PrimeField> {
diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index ce3524a..d163ebe 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -16,9 +16,9 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
     let merkle_roots = proof.layers_root;
     let mut transcript = Transcript::<T, F>::new(F::ZERO);
     let random_r_list = merkle_roots
-        .into_iter()
+        .iter()
         .map(|root| {
-            transcript.digest(root);
+            transcript.digest(*root);
             transcript.generate_a_challenge()
         })
         .collect::<Vec<_>>();
@@ -39,6 +39,7 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
         verify_query(
             &challenge,
             &decommitment,
+            &merkle_roots,
             &random_r_list,
             proof.domain_size,
             proof.const_val,
@@ -51,6 +52,7 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
 fn verify_query<F: PrimeField>(
     challenge: &usize,
     decommitment: &Decommitment<F>,
+    merkle_roots: &[F],
     random_r_list: &[F],
     domain_size: usize,
     const_val: F,
@@ -84,6 +86,13 @@ fn verify_query<F: PrimeField>(
             ));
         }
 
+        // the paths must lead to the root committed for this layer
+        let depth = cur_domain_size.ilog2() as usize;
+        if !path.is_for_tree(merkle_roots[i], depth) || !sym_path.is_for_tree(merkle_roots[i], depth)
+        {
+            return Err(String::from("wrong Merkle root!"));
+        }
+
         if !verify_merkle_proof(path) || !verify_merkle_proof(sym_path) {
             return Err(String::from("verify Merkle path failed!"));
         }
-- 
2.43.0


From 1074bc976d6b4d0f245af6fe7285fa0ebdb4deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 03/19] fix: fri verifier rejects proofs of the wrong shape

Lists of the proof were zipped together, so missing decommitments, missing
layers or a mismatched domain size silently skipped checks; a zero or huge
domain size or a zero coset made verify panic.
---
 fri/src/verifier.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index d163ebe..767c4ea 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -12,6 +12,20 @@ use crate::prover::{Decommitment, Proof};
 ///
 /// This is the only method you should call for verifying
 pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(), String> {
+    // the proof must have the shape the prover gives it
+    if <GeneralEvaluationDomain<F>>::new(proof.domain_size).is_none()
+        || proof.domain_size.checked_ilog2() != Some(proof.layers_root.len() as u32)
+        || !proof.domain_size.is_power_of_two()
+    {
+        return Err(String::from("wrong domain size!"));
+    }
+    if proof.coset.is_zero() {
+        return Err(String::from("wrong coset!"));
+    }
+    if proof.decommitment_list.len() != proof.number_of_queries {
+        return Err(String::from("wrong number of decommitments!"));
+    }
+
     // regenerate random_r list
     let merkle_roots = proof.layers_root;
     let mut transcript = Transcript::<T, F>::new(F::ZERO);
@@ -62,6 +76,16 @@ fn verify_query<F: PrimeField>(
     let mut cur_coset = coset;
     let two = F::from(2u128);
 
+    // every layer must be opened
+    let number_of_layers = merkle_roots.len();
+    if decommitment.evaluations.len() != number_of_layers
+        || decommitment.auth_paths.len() != number_of_layers
+        || decommitment.sym_evaluations.len() != number_of_layers
+        || decommitment.sym_auth_paths.len() != number_of_layers
+    {
+        return Err(String::from("wrong number of layers!"));
+    }
+
     for (((((i, eval), path), sym_eval), sym_path), random_r) in decommitment
         .evaluations
         .iter()
-- 
2.43.0


From 250fff974a57917cf7fc674d4c981d5390a8e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 04/19] fix: adding KZG openings adds both witness points

The sum doubled the left witness, so the sum of two openings did not open
the sum of the commitments.
---
 kzg/src/opening.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kzg/src/opening.rs b/kzg/src/opening.rs
index 4f93531..c5c6059 100644
--- a/kzg/src/opening.rs
+++ b/kzg/src/opening.rs
@@ -25,7 +25,7 @@ impl KzgOpening {
 impl Add for KzgOpening {
     type Output = Self;
 
-    /// Combines two openings by adding their evaluations and doubling the witness point.
+    /// Combines two openings by adding their evaluations and their witness points.
     ///
     /// # Parameters
     ///
@@ -38,8 +38,8 @@ impl Add for KzgOpening {
     fn add(self, rhs: Self) -> Self::Output {
         // Add evaluations
         let eval = self.1 + rhs.1;
-        // Double the witness point
-        let witness = self.0 + self.0;
+        // Add witness points
+        let witness = self.0 + rhs.0;
         Self(witness.into(), eval)
     }
 }
-- 
2.43.0


From f088d3d83afbe0ca96ecd5def9ca537ab523a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 05/19] fix: the zero polynomial can be opened

open and open_vector panicked on the zero polynomial, although it can be
committed to.
---
 kzg/src/scheme.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kzg/src/scheme.rs b/kzg/src/scheme.rs
index 92530e0..0c51a19 100644
--- a/kzg/src/scheme.rs
+++ b/kzg/src/scheme.rs
@@ -109,8 +109,10 @@ impl KzgScheme {
         let z = z.into();
         let evaluation_at_z = polynomial.evaluate(&z);
         let mut new_poly = polynomial.clone();
-        let first = new_poly.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        // the zero polynomial has no coefficient, and evaluates to zero
+        if let Some(first) = new_poly.coeffs.first_mut() {
+            *first -= evaluation_at_z;
+        }
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         // quotient polynomial
         let quotient_poly = &new_poly / &root;
@@ -133,8 +135,10 @@ impl KzgScheme {
         let z = z.into();
         let mut polynomial = DensePolynomial::from_coefficients_vec(coeffs.into());
         let evaluation_at_z = polynomial.evaluate(&z);
-        let first = polynomial.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        // the zero polynomial has no coefficient, and evaluates to zero
+        if let Some(first) = polynomial.coeffs.first_mut() {
+            *first -= evaluation_at_z;
+        }
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         let quotient_poly = &polynomial / &root;
         let opening = self.evaluate_in_s(&quotient_poly);
-- 
2.43.0


From 5ef134291ba1291292589c6f2db404c2f7bf7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 06/19] fix: plonk prover draws its challenges from the
 caller's hash

---
 plonk/src/prover.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index fc5fcfb..37917cf 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -9,7 +9,6 @@ use ark_poly::{
 use ark_std::rand::rngs::StdRng;
 use ark_std::rand::SeedableRng;
 use digest::Digest;
-use sha2::Sha256;
 
 use kzg::commitment::KzgCommitment;
 use kzg::scheme::KzgScheme;
@@ -95,7 +94,7 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<Sha256>::default();
+    let mut challenge = ChallengeGenerator::<T>::default();
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
-- 
2.43.0


From 9d386d71232c0f5c01b3ca66caee88cd2addd1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 07/19] fix: plonk circuits of a single gate can be compiled

---
 plonk/src/circuit.rs                               | 4 ++--
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/plonk/src/circuit.rs b/plonk/src/circuit.rs
index ee34994..fd6fc0d 100644
--- a/plonk/src/circuit.rs
+++ b/plonk/src/circuit.rs
@@ -148,8 +148,8 @@ impl Circuit {
     fn pad_circuit(&mut self) {
         let len = self.gates.len();
 
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        // at least two rows: the size of the smallest domain with a generator
+        let new_len = len.next_power_of_two().max(2);
 
         for _ in len..new_len {
             self.add_dummy_gate();
diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 398cc9d..36ae671 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -171,8 +171,8 @@ impl CPICircuit {
     /// Pads the circuit with dummy gates to make its size a power of 2.
     fn pad_circuit(mut self) -> Self {
         let len = self.gates.len();
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        // at least two rows: the size of the smallest domain with a generator
+        let new_len = len.next_power_of_two().max(2);
 
         for _ in len..new_len {
             self.add_dummy_gate();
-- 
2.43.0


From 3b7f1a7a7bbf8d183a165c2b9277fa49000df0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 08/19] fix: powers in plonk equations apply to the whole
 operand

---
 .../common_preprocessed_input/cpi_parser.rs   | 39 +++++++++++++------
 plonk/src/parser.rs                           | 39 +++++++++++++------
 2 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index e178dfa..61d01d3 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -378,7 +378,7 @@ impl CPIGenerator {
     fn normalize(string: &str) -> String {
         let string = string.to_lowercase();
         let mut result = String::new();
-        let mut last_char = ' ';
+        let mut operand = String::new();
         let mut number_buffer = String::new();
         let mut flag = false;
         for char in string.chars() {
@@ -386,38 +386,53 @@ impl CPIGenerator {
                 continue;
             }
             if char == '^' {
+                if flag {
+                    panic!("can't parse polynomial")
+                }
                 flag = true;
+                number_buffer = String::new();
             } else if !char.is_numeric() {
                 if flag {
                     if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
+                        Self::push_power(&mut result, &operand, &number_buffer);
                         flag = false;
                     } else {
                         panic!("can't parse polynomial")
                     }
                 }
-                last_char = char;
+                if "+-*=".contains(char) {
+                    operand = String::new();
+                } else {
+                    operand.push(char);
+                }
                 result.push(char);
                 number_buffer = String::new();
             } else {
                 number_buffer.push(char);
                 if !flag {
-                    last_char = char;
+                    operand.push(char);
                     result.push(char);
                 }
             }
         }
-        if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
-            }
+        if flag {
+            Self::push_power(&mut result, &operand, &number_buffer);
         }
         result
     }
+
+    /// Raise the operand at the end of `result` to `power`
+    fn push_power(result: &mut String, operand: &str, power: &str) {
+        let power = power.parse::<i32>().expect("can't parse polynomial");
+        if power == 0 {
+            result.truncate(result.len() - operand.len());
+            result.push('1');
+        }
+        for _ in 1..power {
+            result.push('*');
+            result.push_str(operand);
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 37c16b8..64f4cf0 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -373,7 +373,7 @@ impl Parser {
     fn parse_string(string: &str) -> String {
         let string = string.to_lowercase();
         let mut result = String::new();
-        let mut last_char = ' ';
+        let mut operand = String::new();
         let mut number_buffer = String::new();
         let mut flag = false;
         for char in string.chars() {
@@ -381,38 +381,53 @@ impl Parser {
                 continue;
             }
             if char == '^' {
+                if flag {
+                    panic!("can't parse polynomial")
+                }
                 flag = true;
+                number_buffer = String::new();
             } else if !char.is_numeric() {
                 if flag {
                     if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
+                        Self::push_power(&mut result, &operand, &number_buffer);
                         flag = false;
                     } else {
                         panic!("can't parse polynomial")
                     }
                 }
-                last_char = char;
+                if "+-*=".contains(char) {
+                    operand = String::new();
+                } else {
+                    operand.push(char);
+                }
                 result.push(char);
                 number_buffer = String::new();
             } else {
                 number_buffer.push(char);
                 if !flag {
-                    last_char = char;
+                    operand.push(char);
                     result.push(char);
                 }
             }
         }
-        if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
-            }
+        if flag {
+            Self::push_power(&mut result, &operand, &number_buffer);
         }
         result
     }
+
+    /// Raise the operand at the end of `result` to `power`
+    fn push_power(result: &mut String, operand: &str, power: &str) {
+        let power = power.parse::<i32>().expect("can't parse polynomial");
+        if power == 0 {
+            result.truncate(result.len() - operand.len());
+            result.push('1');
+        }
+        for _ in 1..power {
+            result.push('*');
+            result.push_str(operand);
+        }
+    }
 }
 
 //TODO: implement / operator
-- 
2.43.0


From 351ed3e6e5c0026c6866edb765455dee78906373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 09/19] fix: plonk equations link negated variables and
 constants to their wires

---
 .../common_preprocessed_input/cpi_parser.rs   |  5 ++--
 plonk/src/parser.rs                           | 28 +++++++++++++++++--
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index 61d01d3..fc82cc2 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -10,6 +10,7 @@ use kzg::scheme::KzgScheme;
 use crate::common_preprocessed_input::cpi_circuit::CPICircuit;
 use crate::common_preprocessed_input::cpi_parser::TypeOfCircuit::Multiplication;
 use crate::constraint::{CopyConstraints, GateConstraints};
+use crate::parser::Parser;
 
 /// Enum defining the type of circuit gate
 #[derive(Clone, Debug, Hash, Eq, PartialEq)]
@@ -142,13 +143,13 @@ impl CPIGenerator {
         let result = result[1].clone();
 
         let mut split_list: Vec<String> = string.split('+').map(|s| s.to_string()).collect();
-        split_list.push("-".to_string() + result.as_str());
+        split_list.push(Parser::opposite(&result));
         split_list
             .into_iter()
             .map(|split_list| {
                 split_list
                     .split('*')
-                    .map(|s| s.trim().to_string())
+                    .flat_map(Parser::factors)
                     .map(|s| {
                         self.check_constant(
                             &mut gate_list.borrow_mut(),
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 64f4cf0..b1484a2 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -79,7 +79,8 @@ impl Parser {
     /// parser.parse("x=1");
     /// ```
     pub fn add_witness(&mut self, variable: &str, value: Fr) {
-        self.witnesses.insert(variable.to_string(), value);
+        // equations are read in lower case
+        self.witnesses.insert(variable.to_lowercase(), value);
     }
 
     /// Parse the input string to generate the circuit
@@ -109,13 +110,13 @@ impl Parser {
         let result = result[1].clone();
 
         let mut split_list: Vec<String> = string.split('+').map(|s| s.to_string()).collect();
-        split_list.push("-".to_string() + result.as_str());
+        split_list.push(Self::opposite(&result));
         split_list
             .into_iter()
             .map(|split_list| {
                 split_list
                     .split('*')
-                    .map(|s| s.trim().to_string())
+                    .flat_map(Self::factors)
                     .map(|s| {
                         Wire::new(
                             s.clone(),
@@ -364,6 +365,27 @@ impl Parser {
         }
     }
 
+    /// The opposite of a term
+    pub(crate) fn opposite(term: &str) -> String {
+        match term.strip_prefix('-') {
+            Some(term) => term.to_string(),
+            None => format!("-{}", term),
+        }
+    }
+
+    /// The wires a factor multiplies: every constant has one name, and
+    /// a negated variable is the constant -1 times the variable
+    pub(crate) fn factors(factor: &str) -> Vec<String> {
+        let factor = factor.trim();
+        if let Ok(constant) = factor.parse::<i32>() {
+            return vec![constant.to_string()];
+        }
+        match factor.strip_prefix('-') {
+            Some(rest) => [vec!["-1".to_string()], Self::factors(rest)].concat(),
+            None => vec![factor.to_string()],
+        }
+    }
+
     /// Parse a polynomial string to be compatible with parser
     ///
     /// Feature:
-- 
2.43.0


From a31f25da8b74a2d2f4a88482c72a8e9bbc666276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 10/19] fix: plonk challenges are bound to the circuit and its
 public inputs

---
 plonk/src/prover.rs   |  4 ++--
 plonk/src/verifier.rs | 35 ++++++++++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index 37917cf..85f5c24 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -14,10 +14,10 @@ use kzg::commitment::KzgCommitment;
 use kzg::scheme::KzgScheme;
 use kzg::srs::Srs;
 
-use crate::challenge::ChallengeGenerator;
 use crate::compiled_circuit::CompiledCircuit;
 use crate::slice_polynomial::SlicePoly;
 use crate::types::Polynomial;
+use crate::verifier::statement_challenges;
 
 /// Struct representing a proof.
 pub struct Proof {
@@ -94,7 +94,7 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<T>::default();
+    let mut challenge = statement_challenges::<T>(compiled_circuit, &scheme);
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index b087a3e..a81352b 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -33,7 +33,8 @@ pub fn verify<T: Digest + Default>(
 
     #[cfg(test)]
     println!("Verify challenges");
-    let (alpha, beta, gamma, evaluation_challenge, v, u) = verify_challenges::<T>(&proof, &scheme);
+    let (alpha, beta, gamma, evaluation_challenge, v, u) =
+        verify_challenges::<T>(compiled_circuit, &proof, &scheme);
 
     if u != proof.u {
         return Err(String::from("Verify: Challenge verification failed."));
@@ -184,17 +185,37 @@ fn get_circuit_commitment(
     )
 }
 
+/// Starts the challenges from the statement: the circuit and its public inputs.
+pub(crate) fn statement_challenges<T: Digest + Default>(
+    compiled_circuit: &CompiledCircuit,
+    scheme: &KzgScheme,
+) -> ChallengeGenerator<T> {
+    let (q_m_c, q_l_c, q_r_c, q_o_c, q_c_c, s_sigma_1_c, s_sigma_2_c, s_sigma_3_c) =
+        get_circuit_commitment(compiled_circuit, scheme);
+    let pi_c = scheme.commit(compiled_circuit.gate_constraints().pi_x());
+    ChallengeGenerator::from_commitments(&[
+        q_m_c,
+        q_l_c,
+        q_r_c,
+        q_o_c,
+        q_c_c,
+        s_sigma_1_c,
+        s_sigma_2_c,
+        s_sigma_3_c,
+        pi_c,
+    ])
+}
+
 /// Verifies Fiat-Shamir challenges.
 fn verify_challenges<T: Digest + Default>(
+    compiled_circuit: &CompiledCircuit,
     proof: &Proof,
     scheme: &KzgScheme,
 ) -> (Fr, Fr, Fr, Fr, Fr, Fr) {
-    let commitments = [
-        proof.a_commit.clone(),
-        proof.b_commit.clone(),
-        proof.c_commit.clone(),
-    ];
-    let mut challenge = ChallengeGenerator::<T>::from_commitments(&commitments);
+    let mut challenge = statement_challenges::<T>(compiled_circuit, scheme);
+    challenge.feed(&proof.a_commit);
+    challenge.feed(&proof.b_commit);
+    challenge.feed(&proof.c_commit);
     let [beta, gamma] = challenge.generate_challenges();
     challenge.feed(&proof.z_commit);
     let [alpha] = challenge.generate_challenges();
-- 
2.43.0


From 4275d80d7dfb0c654a372759f2a39310730acc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 11/19] fix: plonk verifier fixes the degree of the quotient
 parts

---
 plonk/src/verifier.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index a81352b..00366d9 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -26,6 +26,11 @@ pub fn verify<T: Digest + Default>(
     #[cfg(test)]
     println!("Precompute");
 
+    // the quotient has degree 3 * size + 5, so its three parts have degree size + 1
+    if proof.degree != compiled_circuit.size + 1 {
+        return Err(String::from("Verify: Wrong degree of the quotient parts."));
+    }
+
     let scheme = KzgScheme::new(srs.clone());
 
     let (q_m_c, q_l_c, q_r_c, q_o_c, q_c_c, s_sigma_1_c, s_sigma_2_c, s_sigma_3_c) =
-- 
2.43.0


From b6252d75e9f762cb19787e467d166095426e426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 12/19] fix: the trivial nova pair satisfies every R1CS

---
 nova/src/r1cs/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index 4589083..ca6a6e7 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -79,7 +79,9 @@ pub fn create_trivial_pair(
 ) -> (FWitness, FInstance) {
     let trivial_x = vec![ScalarField::from(0); x_len];
     let trivial_witness = FWitness::new_trivial_witness(w_len);
-    let trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    let mut trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    // with u = 0 the pair satisfies every R1CS, constants included
+    trivial_instance.u = ScalarField::zero();
     (trivial_witness, trivial_instance)
 }
 
-- 
2.43.0


From 8dd7ebaa576435d65b63f327bfc78d13a293628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 13/19] fix: nova folds R1CS whose constraints outnumber their
 variables

---
 nova/src/nifs/mod.rs | 10 +++++-----
 nova/src/r1cs/mod.rs |  3 +++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index 75e3553..f098da2 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -67,12 +67,12 @@ impl<T: Digest + Default> NIFS<T> {
         t: &[ScalarField],
         // rT: ScalarField,
     ) -> FWitness {
-        let new_e = fw1
-            .e
+        // error vectors shorter than T (of a trivial witness) end with zeros
+        let e_at = |fw: &FWitness, i: usize| fw.e.get(i).copied().unwrap_or_default();
+        let new_e = t
             .iter()
-            .zip(t.iter())
-            .zip(&fw2.e)
-            .map(|((e1, t), e2)| *e1 + r * *t + r * r * *e2)
+            .enumerate()
+            .map(|(i, t)| e_at(fw1, i) + r * *t + r * r * e_at(fw2, i))
             .collect();
 
         let new_w = fw1.w.iter().zip(&fw2.w).map(|(a, b)| *a + *b * r).collect();
diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index ca6a6e7..baa949d 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -97,6 +97,9 @@ pub fn is_r1cs_satisfied(
     if r1cs.num_vars != f_witness.w.len() {
         return Err(String::from("Witness does not match with matrices"));
     }
+    if r1cs.matrix_a.len() != f_witness.e.len() {
+        return Err(String::from("Error vector does not match with matrices"));
+    }
     if r1cs.num_io != f_instance.x.len() {
         return Err(String::from("Instance does not match with matrices"));
     }
-- 
2.43.0


From ef715bf68748e5d6eed0675300b3a1ef8b956bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 14/19] fix: the nova folding challenge is bound to both
 instances

---
 nova/src/circuit.rs            |  5 +----
 nova/src/nifs/mod.rs           | 21 +++++++++++++++++++++
 nova/src/nifs/nifs_prover.rs   |  5 +----
 nova/src/nifs/nifs_verifier.rs | 14 +++++---------
 4 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index a557352..52e57dc 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -101,10 +101,7 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
 
             // 3. recreate challenge r
             let mut transcript = Transcript::<T>::default();
-            transcript.feed_scalar_num(u_i.u);
-            transcript.feed_scalar_num(big_u_i.unwrap().u);
-            transcript.feed(com_t.unwrap());
-            let [r] = transcript.generate_challenges();
+            let r = NIFS::<T>::challenge(u_i, big_u_i.unwrap(), com_t.unwrap(), &mut transcript);
 
             // 3.compute U_{i+1}
             let big_u_i1 = NIFS::<T>::verifier(r, u_i, big_u_i.unwrap(), com_t.unwrap());
diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index f098da2..d09e2ca 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -3,6 +3,7 @@ use std::marker::PhantomData;
 use std::ops::Mul;
 
 use crate::r1cs::{FInstance, FWitness, R1CS};
+use crate::transcript::Transcript;
 use crate::utils::{
     hadamard_product, matrix_vector_product, vec_add, vec_sub, vector_elem_product,
 };
@@ -57,6 +58,26 @@ impl<T: Digest + Default> NIFS<T> {
         t
     }
 
+    /// Draw the challenge r from the two instances and the cross-term.
+    pub(crate) fn challenge(
+        fi1: &FInstance,
+        fi2: &FInstance,
+        com_t: &KzgCommitment,
+        transcript: &mut Transcript<T>,
+    ) -> ScalarField {
+        for fi in [fi1, fi2] {
+            transcript.feed(&fi.com_e);
+            transcript.feed_scalar_num(fi.u);
+            transcript.feed(&fi.com_w);
+            for x in &fi.x {
+                transcript.feed_scalar_num(*x);
+            }
+        }
+        transcript.feed(com_t);
+        let [r] = transcript.generate_challenges();
+        r
+    }
+
     /// Fold two witnesses into one.
     /// E ← E1 + r · T + r^2 · E2
     /// W ← W1 + r · W2
diff --git a/nova/src/nifs/nifs_prover.rs b/nova/src/nifs/nifs_prover.rs
index 764dbce..1dacc0f 100644
--- a/nova/src/nifs/nifs_prover.rs
+++ b/nova/src/nifs/nifs_prover.rs
@@ -29,10 +29,7 @@ impl<T: Digest + Default> NIFS<T> {
         let t = NIFS::<T>::compute_t(r1cs, fi1.u, fi2.u, &z1, &z2);
         let com_t = scheme.commit_vector(&t);
 
-        transcript.feed_scalar_num(fi1.u);
-        transcript.feed_scalar_num(fi2.u);
-        transcript.feed(&com_t);
-        let [r] = transcript.generate_challenges();
+        let r = NIFS::<T>::challenge(fi1, fi2, &com_t, transcript);
 
         let new_witness = NIFS::<T>::fold_witness(r, fw1, fw2, &t);
         let new_instance = NIFS::<T>::fold_instance(r, fi1, fi2, &com_t);
diff --git a/nova/src/nifs/nifs_verifier.rs b/nova/src/nifs/nifs_verifier.rs
index 03537c1..bf4cb1e 100644
--- a/nova/src/nifs/nifs_verifier.rs
+++ b/nova/src/nifs/nifs_verifier.rs
@@ -30,7 +30,7 @@ impl<T: Digest + Default> NIFS<T> {
         transcript: &mut Transcript<T>,
     ) -> Result<(), String> {
         // verify challenge.
-        let mut res = Self::verify_challenge(proof.r, fi1.u, fi2.u, com_t, transcript);
+        let mut res = Self::verify_challenge(proof.r, fi1, fi2, com_t, transcript);
         res.as_ref()?;
 
         // verify opening.
@@ -43,19 +43,15 @@ impl<T: Digest + Default> NIFS<T> {
     /// Verify challenge r via Fiat-Shamir
     pub fn verify_challenge(
         r: ScalarField,
-        fi1_u: ScalarField,
-        fi2_u: ScalarField,
+        fi1: &FInstance,
+        fi2: &FInstance,
         com_t: &KzgCommitment,
         transcript: &mut Transcript<T>,
     ) -> Result<(), String> {
         // Recreate challenge r
-        transcript.feed_scalar_num(fi1_u);
-        transcript.feed_scalar_num(fi2_u);
-        transcript.feed(com_t);
-
-        let [new_r] = transcript.generate_challenges();
+        let new_r = Self::challenge(fi1, fi2, com_t, transcript);
 
-        // Verify that proof.r = Transcript(fi1.u, fi2.u, cmT)
+        // Verify that proof.r = Transcript(fi1, fi2, cmT)
         if new_r != r {
             return Err(String::from("Verify: Error in computing random r"));
         }
-- 
2.43.0


From e49ebc2f01f7d9a8663f218450a63fbddfc3fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 15/19] fix: nova instances carry the hash as their only public
 IO

---
 nova/src/circuit.rs          | 3 +--
 nova/src/ivc/ivc_verifier.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index 52e57dc..659d60b 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -84,9 +84,8 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
             // be converted into a comparable type
             // Todo: Non-native field transform
 
-            let u_dot_x = u_i.x[0];
             let hash_fr = ScalarField::from_le_bytes_mod_order(&hash_x.into_bigint().to_bytes_le());
-            if u_dot_x != hash_fr {
+            if u_i.x != [hash_fr] {
                 return Err(String::from("Public IO is wrong "));
             }
 
diff --git a/nova/src/ivc/ivc_verifier.rs b/nova/src/ivc/ivc_verifier.rs
index 43e379f..f4f84ec 100644
--- a/nova/src/ivc/ivc_verifier.rs
+++ b/nova/src/ivc/ivc_verifier.rs
@@ -46,7 +46,7 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> IVC<T, FC> {
             let hash_io = AugmentedCircuit::<T, FC>::hash_io(i, z_0, z_i, &big_u_i);
             let hash_fr =
                 ScalarField::from_le_bytes_mod_order(&hash_io.into_bigint().to_bytes_le());
-            if u_i.x[0] != hash_fr {
+            if u_i.x != [hash_fr] {
                 return Err(String::from("Verify failed: Public IO is wrong"));
             }
 
-- 
2.43.0


From 015259ddc0fff666b914a214e44ce9edfd710e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 16/19] fix: nova verifier checks the folded instance

---
 nova/src/nifs/nifs_verifier.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nova/src/nifs/nifs_verifier.rs b/nova/src/nifs/nifs_verifier.rs
index bf4cb1e..95db9b6 100644
--- a/nova/src/nifs/nifs_verifier.rs
+++ b/nova/src/nifs/nifs_verifier.rs
@@ -33,6 +33,16 @@ impl<T: Digest + Default> NIFS<T> {
         let mut res = Self::verify_challenge(proof.r, fi1, fi2, com_t, transcript);
         res.as_ref()?;
 
+        // verify that fi3 is the folding of fi1 and fi2.
+        let folded = Self::verifier(proof.r, fi1, fi2, com_t);
+        if folded.com_e != fi3.com_e
+            || folded.u != fi3.u
+            || folded.com_w != fi3.com_w
+            || folded.x != fi3.x
+        {
+            return Err(String::from("Verify: Folded instance is wrong"));
+        }
+
         // verify opening.
         res = Self::verify_opening(proof, fi3, scheme, transcript);
         res.as_ref()?;
-- 
2.43.0


From 7ac9df5036da01242118c77fd18eb952f37b2a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 17/19] fix: plonk prover handles circuits whose selectors are
 all zero

---
 plonk/src/prover.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index 85f5c24..c38ec4d 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -486,15 +486,16 @@ fn compute_linearisation_polynomial(
     domain: &GeneralEvaluationDomain<Fr>,
     compiled_circuit: &CompiledCircuit,
 ) -> Polynomial {
-    let mut line1 = compiled_circuit
+    let line1 = compiled_circuit
         .gate_constraints()
         .q_mx()
         .mul(*bar_a * *bar_b)
         + compiled_circuit.gate_constraints().q_lx().mul(*bar_a)
         + compiled_circuit.gate_constraints().q_rx().mul(*bar_b)
         + compiled_circuit.gate_constraints().q_ox().mul(*bar_c)
-        + compiled_circuit.gate_constraints().q_cx().clone();
-    line1.coeffs[0] += pi_e;
+        + compiled_circuit.gate_constraints().q_cx().clone()
+        // the selectors may all be zero, and the zero polynomial has no coefficient
+        + DensePolynomial::from_coefficients_vec(vec![*pi_e]);
 
     let line2 = (*bar_a + *beta * eval_challenge + gamma)
         * (*bar_b + *beta * compiled_circuit.copy_constraints().k1() * eval_challenge + gamma)
-- 
2.43.0


From a5e8fd6f1a3f301d494cc66df89d8de0db580aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:28 +0000
Subject: [PATCH 18/19] fix: dummy gates keep their row in the common
 preprocessed circuit

---
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 36ae671..7274a77 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -97,9 +97,6 @@ impl CPICircuit {
         result.insert(Self::VEC_PI, vec![]);
 
         for gate in &self.gates {
-            if gate.is_dummy_gate() {
-                continue;
-            }
             result.get_mut(Self::VEC_QL).unwrap().push(gate.q_l);
             result.get_mut(Self::VEC_QR).unwrap().push(gate.q_r);
             result.get_mut(Self::VEC_QM).unwrap().push(gate.q_m);
-- 
2.43.0


From 7c47b1b787d479e1fc7a8618f45203805b552448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:27 +0000
Subject: [PATCH 19/19] fix: an augmented step folds only the running instance
 its hash was made of

---
 nova/src/circuit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index 659d60b..b2dc40b 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -89,6 +89,11 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
                 return Err(String::from("Public IO is wrong "));
             }
 
+            // the running instance must be the one in the hash
+            if Self::hash_io(self.i, &self.z_0, &self.z_i, big_u_i.unwrap()) != hash_x {
+                return Err(String::from("Running instance is wrong"));
+            }
+
             // 2. check that u_i.comE = com_([0,...]) and u_i.u = 1
             if u_i.com_e != self.trivial_instance.com_e {
                 return Err(String::from("Commitment of E is wrong"));
-- 
2.43.0

