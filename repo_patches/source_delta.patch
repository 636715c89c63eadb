From a03979979267761682465d4a9ed20a845a02de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 01/46] fix: num_bits of a one-limb Goldilocks representation

---
 fields/src/field_gl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fields/src/field_gl.rs b/fields/src/field_gl.rs
index 1146e5d..cf653d8 100644
--- a/fields/src/field_gl.rs
+++ b/fields/src/field_gl.rs
@@ -230,7 +230,7 @@ impl crate::ff::PrimeFieldRepr for FrRepr {
     }
     #[inline(always)]
     fn num_bits(&self) -> u32 {
-        let mut ret = (2usize as u32) * 64;
+        let mut ret = (1usize as u32) * 64;
         for i in self.0.iter().rev() {
             let leading = i.leading_zeros();
             ret -= leading;
-- 
2.43.0


From 5dee773c01d1c339a5a918050ab453141e87b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 02/46] fix: negation of quintic extension elements

---
 starky/src/f5g.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 61e2299..874de5f 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -488,9 +488,9 @@ impl Neg for F5G {
     #[inline]
     fn neg(self) -> Self::Output {
         match self.dim {
-            3 => Self {
+            5 => Self {
                 cube: [-self.cube[0], -self.cube[1], -self.cube[2], -self.cube[3], -self.cube[4]],
-                dim: 3,
+                dim: 5,
             },
             1 => Self::from(-self.to_be()),
             _ => {
-- 
2.43.0


From 1ee498f6748ff602f68c7b35474b5b7d479eb7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 03/46] fix: ordering of quintic extension elements

---
 starky/src/f5g.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 874de5f..c631731 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -104,11 +104,7 @@ impl FieldExtension for F5G {
         let res = rhs.as_elements();
         match self.dim {
             5 => {
-                (les[0] > res[0]
-                    && (les[1] == res[1])
-                    && (les[2] == res[2])
-                    && (les[3] == res[3])
-                    && (les[4] == res[4]))
+                (les[0] > res[0])
                     || ((les[0] == res[0]) && (les[1] > res[1]))
                     || ((les[0] == res[0]) && (les[1] == res[1]) && (les[2] > res[2]))
                     || ((les[0] == res[0])
@@ -135,7 +131,7 @@ impl FieldExtension for F5G {
 
     #[inline]
     fn lt(&self, rhs: &Self) -> bool {
-        !self.gt(rhs) || self.lt(rhs)
+        !self.geq(rhs)
     }
 
     #[inline]
-- 
2.43.0


From 963cea940c157ae9f80e0d73246b006eacd07290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 04/46] fix: bit reversal of an index one past the cached ones

---
 starky/src/fft_p.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/fft_p.rs b/starky/src/fft_p.rs
index 35a1a7a..8eab7dd 100644
--- a/starky/src/fft_p.rs
+++ b/starky/src/fft_p.rs
@@ -33,7 +33,7 @@ pub fn BR(x: usize, domain_pow: usize) -> usize {
     // check if need append more to cache
     let cache_len = cache.len();
     let n = 1 << domain_pow;
-    if cache_len <= n || cache_len < x {
+    if cache_len <= n || cache_len <= x {
         let end = if n >= x { n } else { x };
         // todo parallel
         for i in cache_len..=end {
-- 
2.43.0


From 523bda54ef19686fe57f88db00a6404c9d32fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 05/46] fix: transforms on a machine with one processor

---
 starky/src/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/constant.rs b/starky/src/constant.rs
index cd8442e..cb0b033 100644
--- a/starky/src/constant.rs
+++ b/starky/src/constant.rs
@@ -118,5 +118,5 @@ pub const MAX_OPS_PER_THREAD: usize = 1 << 18;
 pub const GLOBAL_L1: &str = "Global.L1";
 
 pub fn get_max_workers() -> usize {
-    num_cpus::get() - 1
+    core::cmp::max(num_cpus::get(), 2) - 1
 }
-- 
2.43.0


From eb85419f4354091ef0e79b2f4e56d26547a6b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 06/46] fix: 16-ary Merkle openings bind the row and its index

The root was recomputed from the path alone, so any row at any index verified
against any valid path.
---
 starky/src/merklehash_bls12381.rs | 6 +++++-
 starky/src/merklehash_bn128.rs    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 19454f4..b2c7769 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -116,12 +116,16 @@ impl MerkleTreeBLS12381 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
         }
+        // the path carries all 16 children: the one at this index must be the value reached so far
+        if vals[cur_idx] != Fr(value.as_scalar::<Fr>()) {
+            bail!("MerkleTreeError: the path does not contain the opened node at level {}", offset);
+        }
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
         let next_value = <Self as MerkleTree>::MTNode::from_scalar(&next_value);
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 54ae026..6cb82c2 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -115,12 +115,16 @@ impl MerkleTreeBN128 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
         }
+        // the path carries all 16 children: the one at this index must be the value reached so far
+        if vals[cur_idx] != Fr(value.as_scalar::<Fr>()) {
+            bail!("MerkleTreeError: the path does not contain the opened node at level {}", offset);
+        }
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
         let next_value = <Self as MerkleTree>::MTNode::from_scalar(&next_value);
-- 
2.43.0


From 02786a9d9489c076111e3f347eb13c6f0968f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 07/46] fix: leaf hash of a four-element row in the 16-ary
 trees

The prover packed four elements into one scalar (reduced modulo the field, so
not injective) where the verifier and the circuits hash two groups of three.
---
 starky/src/linearhash_bls12381.rs | 3 ++-
 starky/src/linearhash_bn128.rs    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/starky/src/linearhash_bls12381.rs b/starky/src/linearhash_bls12381.rs
index 1eb9fa3..732484f 100644
--- a/starky/src/linearhash_bls12381.rs
+++ b/starky/src/linearhash_bls12381.rs
@@ -104,7 +104,8 @@ impl LinearHashBLS12381 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        // one group of 3, see hash_element_matrix
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
diff --git a/starky/src/linearhash_bn128.rs b/starky/src/linearhash_bn128.rs
index f0eaee1..6730a26 100644
--- a/starky/src/linearhash_bn128.rs
+++ b/starky/src/linearhash_bn128.rs
@@ -105,7 +105,8 @@ impl LinearHashBN128 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        // one group of 3, see hash_element_matrix
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
-- 
2.43.0


From ab0fc2c45ba7d3e88a5ad1dccbf35b4e6bf1dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 08/46] fix: absorbing discards squeezed limbs in the BN128 and
 BLS12381 transcripts

Limbs left over from before an absorbed value were handed out as challenges after it.
---
 starky/src/transcript_bls12381.rs | 1 +
 starky/src/transcript_bn128.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/starky/src/transcript_bls12381.rs b/starky/src/transcript_bls12381.rs
index 1fc52ca..85cd135 100644
--- a/starky/src/transcript_bls12381.rs
+++ b/starky/src/transcript_bls12381.rs
@@ -32,6 +32,7 @@ impl TranscriptBLS128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
diff --git a/starky/src/transcript_bn128.rs b/starky/src/transcript_bn128.rs
index 7577ed8..0dba7a5 100644
--- a/starky/src/transcript_bn128.rs
+++ b/starky/src/transcript_bn128.rs
@@ -32,6 +32,7 @@ impl TranscriptBN128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
-- 
2.43.0


From 378a84868da90336d79d0ffe1bfc0ba41be47b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 09/46] fix: root of a Merkle tree with a single row

---
 starky/src/merklehash.rs          | 4 ++++
 starky/src/merklehash_bls12381.rs | 4 ++++
 starky/src/merklehash_bn128.rs    | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/starky/src/merklehash.rs b/starky/src/merklehash.rs
index af4649d..d2e22d4 100644
--- a/starky/src/merklehash.rs
+++ b/starky/src/merklehash.rs
@@ -45,6 +45,10 @@ pub struct MerkleTreeGL {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    // a single leaf is the root
+    if n_ == 1 {
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 2 + 1;
     let mut acc = next_n * 2;
diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index b2c7769..fa229a7 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -25,6 +25,10 @@ pub struct MerkleTreeBLS12381 {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    // a single leaf is the root
+    if n_ == 1 {
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 6cb82c2..42348d2 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -24,6 +24,10 @@ pub struct MerkleTreeBN128 {
 }
 
 fn get_n_nodes(n_: usize) -> usize {
+    // a single leaf is the root
+    if n_ == 1 {
+        return 1;
+    }
     let mut n = n_;
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
-- 
2.43.0


From f17df4788b983647c6d438a9753a73c973383741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 10/46] fix: Merkle openings are bound to an index inside the
 tree

The bits of the index beyond the path were ignored, so an opening also verified
at other indices.
---
 starky/src/merklehash.rs          | 3 +++
 starky/src/merklehash_bls12381.rs | 3 +++
 starky/src/merklehash_bn128.rs    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/starky/src/merklehash.rs b/starky/src/merklehash.rs
index d2e22d4..0c0c44c 100644
--- a/starky/src/merklehash.rs
+++ b/starky/src/merklehash.rs
@@ -193,6 +193,9 @@ impl MerkleTreeGL {
         offset: usize,
     ) -> Result<ElementDigest<4, FGL>> {
         if mp.len() == offset {
+            if idx != 0 {
+                bail!("MerkleTreeError: the index is outside of the tree");
+            }
             return Ok(*value);
         }
         let cur_idx = idx & 1;
diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index fa229a7..10313fd 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -118,6 +118,9 @@ impl MerkleTreeBLS12381 {
         offset: usize,
     ) -> Result<ElementDigest<4, Fr>> {
         if mp.len() == offset {
+            if idx != 0 {
+                bail!("MerkleTreeError: the index is outside of the tree");
+            }
             return Ok(*value);
         }
         let cur_idx = idx & 0xF;
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 42348d2..1f1eb82 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -117,6 +117,9 @@ impl MerkleTreeBN128 {
         offset: usize,
     ) -> Result<ElementDigest<4, Fr>> {
         if mp.len() == offset {
+            if idx != 0 {
+                bail!("MerkleTreeError: the index is outside of the tree");
+            }
             return Ok(*value);
         }
         let cur_idx = idx & 0xF;
-- 
2.43.0


From 7b79b43189c356fe0e2dd92e065ae4bf3020bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 11/46] fix: the verifier checks the shape of openings

The openings of a proof were taken at the length the prover gave them: a FRI
group with more values than the fold has lets the prover choose the folded
value, and a shortened path passes the digests of a level off as a row.
---
 starky/src/fri.rs                 | 22 ++++++++++++++++++++++
 starky/src/merklehash.rs          |  5 +++++
 starky/src/merklehash_bls12381.rs |  5 +++++
 starky/src/merklehash_bn128.rs    |  5 +++++
 starky/src/stark_verify.rs        | 20 ++++++++++++++++++++
 starky/src/traits.rs              | 11 +++++++++++
 6 files changed, 68 insertions(+)

diff --git a/starky/src/fri.rs b/starky/src/fri.rs
index 428c878..35306ac 100644
--- a/starky/src/fri.rs
+++ b/starky/src/fri.rs
@@ -217,6 +217,28 @@ impl FRI {
         let mut pol_bits = self.in_nbits;
         let mut shift = F::from(*SHIFT);
 
+        // what is opened has the shape the prover commits to, nothing is left to its choice
+        if proof.last.len() != 1 << self.steps[self.steps.len() - 1].nBits {
+            log::error!("wrong size of the last polynomial");
+            return Ok(false);
+        }
+        for si in 0..self.steps.len() {
+            if proof.queries[si].pol_queries.len() != n_queries {
+                log::error!("wrong number of queries si:{}", si);
+                return Ok(false);
+            }
+            if si > 0 {
+                let width = 3 << (self.steps[si - 1].nBits - self.steps[si].nBits);
+                let levels = M::path_len(1 << self.steps[si].nBits);
+                for query in proof.queries[si].pol_queries.iter() {
+                    if query.len() != 1 || query[0].0.len() != width || query[0].1.len() != levels {
+                        log::error!("wrong shape of an opening si:{}", si);
+                        return Ok(false);
+                    }
+                }
+            }
+        }
+
         let check_query_fn = |si: usize,
                               query: &Vec<(Vec<FGL>, Vec<Vec<M::BaseField>>)>,
                               idx: usize|
diff --git a/starky/src/merklehash.rs b/starky/src/merklehash.rs
index 0c0c44c..bcf5415 100644
--- a/starky/src/merklehash.rs
+++ b/starky/src/merklehash.rs
@@ -258,6 +258,7 @@ impl MerkleTreeGL {
 impl MerkleTree for MerkleTreeGL {
     type BaseField = FGL;
     type MTNode = ElementDigest<4, FGL>;
+    const ARITY: usize = 2;
     type ExtendField = F3G;
     fn new() -> Self {
         Self {
@@ -455,6 +456,10 @@ impl MerkleTree for MerkleTreeGL {
         idx: usize,
         group_elements: &[FGL],
     ) -> Result<bool> {
+        // a tree that was built knows the length of its openings
+        if self.height > 0 && mp.len() != Self::path_len(self.height) {
+            return Ok(false);
+        }
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
         Ok(self.eq_root(root, &c_root))
     }
diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 10313fd..e53c47a 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -153,6 +153,7 @@ impl MerkleTreeBLS12381 {
 impl MerkleTree for MerkleTreeBLS12381 {
     type BaseField = Fr;
     type MTNode = ElementDigest<4, Fr>;
+    const ARITY: usize = 16;
     type ExtendField = F3G;
     fn new() -> Self {
         Self {
@@ -264,6 +265,10 @@ impl MerkleTree for MerkleTreeBLS12381 {
         idx: usize,
         group_elements: &[FGL],
     ) -> Result<bool> {
+        // a tree that was built knows the length of its openings
+        if self.height > 0 && mp.len() != Self::path_len(self.height) {
+            return Ok(false);
+        }
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
         Ok(self.eq_root(root, &c_root))
     }
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 1f1eb82..c6e6576 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -152,6 +152,7 @@ impl MerkleTreeBN128 {
 impl MerkleTree for MerkleTreeBN128 {
     type BaseField = Fr;
     type MTNode = ElementDigest<4, Fr>;
+    const ARITY: usize = 16;
     type ExtendField = F3G;
 
     fn new() -> Self {
@@ -260,6 +261,10 @@ impl MerkleTree for MerkleTreeBN128 {
         idx: usize,
         group_elements: &[FGL],
     ) -> Result<bool> {
+        // a tree that was built knows the length of its openings
+        if self.height > 0 && mp.len() != Self::path_len(self.height) {
+            return Ok(false);
+        }
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
         Ok(self.eq_root(root, &c_root))
     }
diff --git a/starky/src/stark_verify.rs b/starky/src/stark_verify.rs
index 172b954..00698ff 100644
--- a/starky/src/stark_verify.rs
+++ b/starky/src/stark_verify.rs
@@ -24,6 +24,12 @@ pub fn stark_verify<M: MerkleTree, T: Transcript>(
     stark_struct: &StarkStruct,
     program: &Program,
 ) -> Result<bool> {
+    if proof.publics.len() != starkinfo.publics.len()
+        || proof.evals.len() != starkinfo.ev_map.len()
+    {
+        log::error!("wrong number of publics or evaluations");
+        return Ok(false);
+    }
     let mut transcript = T::new();
 
     let mut ctx = StarkContext::default();
@@ -87,6 +93,20 @@ pub fn stark_verify<M: MerkleTree, T: Transcript>(
                        idx: usize|
      -> Result<Vec<M::ExtendField>> {
         log::trace!("Query: {}", idx);
+        // the rows are those of the committed trees, not nodes of a higher level or longer rows
+        let widths = [
+            starkinfo.map_sectionsN.get("cm1_2ns"),
+            starkinfo.map_sectionsN.get("cm2_2ns"),
+            starkinfo.map_sectionsN.get("cm3_2ns"),
+            starkinfo.map_sectionsN.get("cm4_2ns"),
+            starkinfo.n_constants,
+        ];
+        let levels = M::path_len(1 << stark_struct.nBitsExt);
+        if query.len() != widths.len()
+            || query.iter().zip(widths).any(|(q, w)| q.0.len() != w || q.1.len() != levels)
+        {
+            bail!("FRIVerifierFailed");
+        }
         let tree = M::new();
         let res = tree.verify_group_proof(&proof.root1, &query[0].1, idx, &query[0].0)?;
         if !res {
diff --git a/starky/src/traits.rs b/starky/src/traits.rs
index 027136a..58506b0 100644
--- a/starky/src/traits.rs
+++ b/starky/src/traits.rs
@@ -35,6 +35,17 @@ where
         + DeserializeOwned;
     type ExtendField: FieldExtension;
     type BaseField: Clone + Default + Debug + PartialEq + Serialize + DeserializeOwned;
+    /// number of children of a node
+    const ARITY: usize;
+    /// number of levels of an opening of a tree with `height` rows
+    fn path_len(height: usize) -> usize {
+        let (mut n, mut levels) = (height, 0);
+        while n > 1 {
+            n = n.div_ceil(Self::ARITY);
+            levels += 1;
+        }
+        levels
+    }
     fn new() -> Self;
     fn to_extend(&self, p_be: &mut Vec<Self::ExtendField>);
     fn to_basefield(node: &Self::MTNode) -> Vec<Self::BaseField>;
-- 
2.43.0


From 4c0f63caae69cb05100b830d82ca18f66d630f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 12/46] fix: code of public expressions is indexed by the
 position of the public

---
 starky/src/starkinfo.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starky/src/starkinfo.rs b/starky/src/starkinfo.rs
index 7ec82e9..36061f4 100644
--- a/starky/src/starkinfo.rs
+++ b/starky/src/starkinfo.rs
@@ -316,6 +316,9 @@ impl StarkInfo {
                 //    log::trace!("{}", pp);
                 //}
                 ctx.calculated.clear(); // TODO: useless
+            } else {
+                // publics_code is indexed by the position of the public
+                program.publics_code.push(Segment::default());
             }
         }
         Ok(())
-- 
2.43.0


From 7eb6d53a052e3e3703790534a613a640b9a64aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 13/46] fix: lookup of base field values in a table with a
 selector

---
 starky/src/stark_gen.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/starky/src/stark_gen.rs b/starky/src/stark_gen.rs
index 61776f5..6cbdf3a 100644
--- a/starky/src/stark_gen.rs
+++ b/starky/src/stark_gen.rs
@@ -631,12 +631,17 @@ fn calculate_H1H2<F: FieldExtension>(f: Vec<F>, t: Vec<F>) -> (Vec<F>, Vec<F>) {
         s[i] = (*e, i);
     }
 
-    for (i, e) in f.iter().enumerate() {
-        let idx = idx_t.get(e);
+    // the table may hold extension field elements while the values looked up are in the base field
+    let lift = |e: &F| match t.first() {
+        Some(t0) if t0.dim() > e.dim() => *e + F::ZEROS,
+        _ => *e,
+    };
+    for (i, e) in f.iter().map(lift).enumerate() {
+        let idx = idx_t.get(&e);
         if idx.is_none() {
             panic!("Number not included: {e:?}");
         }
-        s[i + t.len()] = (*e, *idx.unwrap());
+        s[i + t.len()] = (e, *idx.unwrap());
     }
 
     s.sort_by(|a, b| a.1.cmp(&b.1));
-- 
2.43.0


From 050a17dc81dc23242486d2fedbf70c96726cc3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 14/46] fix: degree check of the last FRI polynomial was off by
 one

---
 starky/src/fri.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/starky/src/fri.rs b/starky/src/fri.rs
index 35306ac..a00cc9b 100644
--- a/starky/src/fri.rs
+++ b/starky/src/fri.rs
@@ -298,17 +298,16 @@ impl FRI {
 
         let last_pol_e = proof.last.clone();
 
-        #[allow(unused_assignments)]
-        let mut max_deg = 0usize;
-        if pol_bits < (self.in_nbits - self.max_deg_nbits) {
-            max_deg = 0;
+        // a polynomial of degree less than 2^max_deg_nbits folds to one with this many coefficients
+        let n_coefs = if pol_bits < (self.in_nbits - self.max_deg_nbits) {
+            1
         } else {
-            max_deg = 1 << (pol_bits - (self.in_nbits - self.max_deg_nbits));
-        }
+            1 << (pol_bits - (self.in_nbits - self.max_deg_nbits))
+        };
 
         let last_pol_c = standard_fft.ifft(&last_pol_e);
 
-        for i in (max_deg + 1)..last_pol_c.len() {
+        for i in n_coefs..last_pol_c.len() {
             if !last_pol_c[i].is_zero() {
                 log::error!("check last pol c failed");
                 return Ok(false);
-- 
2.43.0


From 3fc94daa87bd8f924f1a2f5f42c7b4dad256d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 15/46] fix: levels of Merkle openings have a fixed width

---
 starky/src/merklehash.rs          | 4 ++++
 starky/src/merklehash_bls12381.rs | 4 ++++
 starky/src/merklehash_bn128.rs    | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/starky/src/merklehash.rs b/starky/src/merklehash.rs
index bcf5415..233e67a 100644
--- a/starky/src/merklehash.rs
+++ b/starky/src/merklehash.rs
@@ -460,6 +460,10 @@ impl MerkleTree for MerkleTreeGL {
         if self.height > 0 && mp.len() != Self::path_len(self.height) {
             return Ok(false);
         }
+        // a level holds one digest, the sibling
+        if mp.iter().any(|level| level.len() != 4) {
+            return Ok(false);
+        }
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
         Ok(self.eq_root(root, &c_root))
     }
diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index e53c47a..8d8d7d2 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -269,6 +269,10 @@ impl MerkleTree for MerkleTreeBLS12381 {
         if self.height > 0 && mp.len() != Self::path_len(self.height) {
             return Ok(false);
         }
+        // a level holds all children of a node
+        if mp.iter().any(|level| level.len() != Self::ARITY) {
+            return Ok(false);
+        }
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
         Ok(self.eq_root(root, &c_root))
     }
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index c6e6576..590523d 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -265,6 +265,10 @@ impl MerkleTree for MerkleTreeBN128 {
         if self.height > 0 && mp.len() != Self::path_len(self.height) {
             return Ok(false);
         }
+        // a level holds all children of a node
+        if mp.iter().any(|level| level.len() != Self::ARITY) {
+            return Ok(false);
+        }
         let c_root = self.calculate_root_from_group_proof(mp, idx, group_elements)?;
         Ok(self.eq_root(root, &c_root))
     }
-- 
2.43.0


From 565a22d0a49cb49486d0765b0313832e96f8ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 16/46] fix: degree check of the last polynomial in the
 circuits of small last layers

---
 starky/src/stark_verifier_circom.rs         | 2 +-
 starky/src/stark_verifier_circom_onchain.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index 0f7573c..0e77f7f 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -1471,7 +1471,7 @@ template StarkVerifier() {{
     ///////
     // Last FFT
     let nLastBits = stark_struct.steps[stark_struct.steps.len() - 1].nBits;
-    let maxDegBits = nLastBits - (stark_struct.nBitsExt - stark_struct.nBits);
+    let maxDegBits = nLastBits.saturating_sub(stark_struct.nBitsExt - stark_struct.nBits);
 
     res.push_str(&format!(
         r#"
diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index b712e30..e7a4325 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -1559,7 +1559,7 @@ template StarkVerifier() {{
     ///////
     // Last FFT
     let nLastBits = stark_struct.steps[stark_struct.steps.len() - 1].nBits;
-    let maxDegBits = nLastBits - (stark_struct.nBitsExt - stark_struct.nBits);
+    let maxDegBits = nLastBits.saturating_sub(stark_struct.nBitsExt - stark_struct.nBits);
 
     res.push_str(&format!(
         r#"
-- 
2.43.0


From 0bbf734ad8974d4cfaf0cfc8deaaf1de28c6d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 17/46] fix: PIL literals below -p denote the integer modulo p

---
 starky/src/types.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/starky/src/types.rs b/starky/src/types.rs
index 6e5a405..5432b9f 100644
--- a/starky/src/types.rs
+++ b/starky/src/types.rs
@@ -220,16 +220,12 @@ where
 #[inline(always)]
 pub fn parse_pil_number(raw_val: &str) -> u64 {
     //let raw_val = r.value.as_ref().unwrap();
-    let mut n_val: i128 = match raw_val.starts_with("0x") {
+    let n_val: i128 = match raw_val.starts_with("0x") {
         true => i128::from_str_radix(&raw_val[2..], 16).unwrap(),
         _ => raw_val.parse::<i128>().unwrap(),
     };
     // FIXME: Goldilocks modular, try to fetch it from FieldExtension
-    if n_val < 0 {
-        n_val += 18446744069414584321;
-    }
-    n_val %= 18446744069414584321;
-    n_val as u64
+    n_val.rem_euclid(18446744069414584321) as u64
 }
 
 #[cfg(test)]
-- 
2.43.0


From bb03bb015f5ab97034abfb42fac37fc88bf3845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 18/46] fix: a trace file shorter than the table is an error

---
 starky/src/polsarray.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index 325496b..c45b25a 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -150,23 +150,15 @@ impl PolsArray {
                 k / 1024 / 1024,
                 totalSize / 1024 / 1024
             );
-            let mut n = std::cmp::min(buff8.len() / 8, totalSize - k);
-            let rs = f.read(&mut buff8[..(n * 8)])?;
-            log::trace!(
-                "read size: read size = {}, n = {}, k = {}, totalSize = {}",
-                rs,
-                n,
-                k,
-                totalSize
-            );
+            let n = std::cmp::min(buff8.len() / 8, totalSize - k);
+            f.read_exact(&mut buff8[..(n * 8)])?;
+            log::trace!("n = {}, k = {}, totalSize = {}", n, k, totalSize);
             let buff: &[u64] = unsafe {
                 std::slice::from_raw_parts(
                     buff8.as_ptr() as *const u64,
                     buff8.len() / std::mem::size_of::<u64>(),
                 )
             };
-            n = rs / 8;
-
             for l in 0..n {
                 self.array[i][j] = FGL::from(buff[l]);
                 i += 1;
-- 
2.43.0


From 0f1588a4c1c7a13e990e92f13961e1026682e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 19/46] fix: all polynomials of a namespace stay in the table's
 directory

---
 starky/src/polsarray.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index c45b25a..d644abd 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -85,9 +85,7 @@ impl PolsArray {
                         polDeg: ref_.polDeg,
                     };
                     let arrayPols: Vec<usize> = vec![ref_.id];
-                    let mut ns: HashMap<String, Vec<usize>> = HashMap::new();
-                    ns.insert(namePols, arrayPols);
-                    def.insert(nameSpace, ns);
+                    def.entry(nameSpace).or_default().insert(namePols, arrayPols);
                     array[ref_.id] = vec![FGL::default(); ref_.polDeg];
                 }
             }
-- 
2.43.0


From 9a3847964e7fcd5ade8ccd784ec8910ffe149afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 20/46] fix: R1CS loaders do not allocate by unchecked counts
 of the file

---
 algebraic-gpu/src/r1cs_file.rs | 20 ++++++++++----------
 algebraic/src/r1cs_file.rs     | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index 928171a..ef34b47 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -54,6 +54,12 @@ const CUSTOM_GATES_USE: u32 = 5;
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
+    if !(field_size == 32 || field_size == 8) {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "This parser only supports 32-bytes or 8-bytes fields",
+        ));
+    }
     let mut prime_size = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
@@ -78,7 +84,7 @@ fn read_constraint_vec<R: Read, E: PrimeField>(
     header: &Header,
 ) -> Result<Vec<(usize, E)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = Vec::new();
     for _ in 0..n_vec {
         vec.push((
             reader.read_u32::<LittleEndian>()? as usize,
@@ -96,7 +102,7 @@ fn read_constraints<R: Read, E: PrimeField>(
     header: &Header,
 ) -> Result<Vec<Constraint<E>>> {
     // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_constraints {
         vec.push((
             read_constraint_vec::<&mut R, E>(&mut reader, header)?,
@@ -111,7 +117,7 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     if size != header.n_wires as u64 * 8 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid map section size"));
     }
-    let mut vec = Vec::with_capacity(header.n_wires as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
@@ -163,7 +169,7 @@ fn read_custom_gates_uses_list<R: Read>(
     let mut custom_gates_uses: Vec<CustomGatesUses> = vec![];
 
     let sz = size as usize / 4;
-    let mut b_r1cs32 = Vec::with_capacity(sz);
+    let mut b_r1cs32 = Vec::new();
     for _ in 0..sz {
         b_r1cs32.push(reader.read_u32::<LittleEndian>()?);
     }
@@ -224,12 +230,6 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
     {
         header.use_custom_gates = true;
     }
-    if !(header.field_size == 32 || header.field_size == 8) {
-        return Err(Error::new(
-            ErrorKind::InvalidData,
-            "This parser only supports 32-bytes or 8-bytes fields",
-        ));
-    }
     if header.field_size != E::NUM_BITS.div_ceil(8) {
         return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
     }
diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index 22c10b9..83fb78e 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -49,6 +49,12 @@ const CUSTOM_GATES_USE: u32 = 5;
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
+    if !(field_size == 32 || field_size == 8) {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "This parser only supports 32-bytes or 8-bytes fields",
+        ));
+    }
     let mut prime_size = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
@@ -73,7 +79,7 @@ fn read_constraint_vec<R: Read, E: ScalarEngine>(
     header: &Header,
 ) -> Result<Vec<(usize, E::Fr)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = Vec::new();
     for _ in 0..n_vec {
         vec.push((
             reader.read_u32::<LittleEndian>()? as usize,
@@ -91,7 +97,7 @@ fn read_constraints<R: Read, E: ScalarEngine>(
     header: &Header,
 ) -> Result<Vec<Constraint<E>>> {
     // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_constraints {
         vec.push((
             read_constraint_vec::<&mut R, E>(&mut reader, header)?,
@@ -106,7 +112,7 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
     if size != header.n_wires as u64 * 8 {
         return Err(Error::new(ErrorKind::InvalidData, "Invalid map section size"));
     }
-    let mut vec = Vec::with_capacity(header.n_wires as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
@@ -158,7 +164,7 @@ fn read_custom_gates_uses_list<R: Read>(
     let mut custom_gates_uses: Vec<CustomGatesUses> = vec![];
 
     let sz = size as usize / 4;
-    let mut b_r1cs32 = Vec::with_capacity(sz);
+    let mut b_r1cs32 = Vec::new();
     for _ in 0..sz {
         b_r1cs32.push(reader.read_u32::<LittleEndian>()?);
     }
@@ -219,12 +225,6 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
     {
         header.use_custom_gates = true;
     }
-    if !(header.field_size == 32 || header.field_size == 8) {
-        return Err(Error::new(
-            ErrorKind::InvalidData,
-            "This parser only supports 32-bytes or 8-bytes fields",
-        ));
-    }
     if header.field_size != E::Fr::NUM_BITS.div_ceil(8) {
         return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
     }
-- 
2.43.0


From 4fbbf629720d6b890ce90181c1594c2fa1c8e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 21/46] fix: an R1CS file that ends within a gate's name is
 refused

---
 algebraic-gpu/src/r1cs_file.rs | 8 ++++----
 algebraic/src/r1cs_file.rs     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index ef34b47..f050e44 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -128,18 +128,18 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
 }
 
 // TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut name_buf = vec![1u8; 1];
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
+        reader.read_exact(&mut name_buf)?;
         if name_buf[0] != 0 {
             buf.push(name_buf[0]);
         } else {
             break;
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: PrimeField>(
@@ -151,7 +151,7 @@ fn read_custom_gates_list<R: Read, E: PrimeField>(
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
             custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index 83fb78e..b4164a3 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -123,18 +123,18 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
 }
 
 // TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut name_buf = vec![1u8; 1];
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
+        reader.read_exact(&mut name_buf)?;
         if name_buf[0] != 0 {
             buf.push(name_buf[0]);
         } else {
             break;
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: ScalarEngine>(
@@ -146,7 +146,7 @@ fn read_custom_gates_list<R: Read, E: ScalarEngine>(
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
             custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
-- 
2.43.0


From 96c1d09c4b552c0ba44744c44827d6ea0a229f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 22/46] fix: an R1CS over another prime than the field's is
 refused

---
 algebraic-gpu/src/r1cs_file.rs | 6 ++++++
 algebraic/src/r1cs_file.rs     | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index f050e44..f290b29 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -241,6 +241,12 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
     {
         return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256 or GL"));
     }
+    let mut modulus = hex::decode(E::MODULUS.trim_start_matches("0x"))
+        .map_err(|e| Error::new(ErrorKind::InvalidData, e))?;
+    modulus.reverse();
+    if header.prime_size != modulus {
+        return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
+    }
     reader.seek(SeekFrom::Start(*section_offsets.get(&CONSTRAINT_TYPE).unwrap()))?;
     let constraints = read_constraints::<&mut R, E>(
         &mut reader,
diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index b4164a3..1b6f8a1 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -236,6 +236,11 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
     {
         return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256 or GL"));
     }
+    let mut modulus = vec![];
+    E::Fr::char().write_le(&mut modulus)?;
+    if header.prime_size != modulus {
+        return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
+    }
     reader.seek(SeekFrom::Start(*section_offsets.get(&CONSTRAINT_TYPE).unwrap()))?;
     let constraints = read_constraints::<&mut R, E>(
         &mut reader,
-- 
2.43.0


From 538cdfb84b4f6fed431c367efecdcef88dff78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 23/46] fix: truncated or non-canonical witness files are
 refused, not shortened

---
 algebraic-gpu/src/reader.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index 18ba416..6c4a7f7 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -105,14 +105,12 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
     for _ in 0..witness_len {
         let mut repr = E::default().to_repr();
         let repr_slice = repr.as_mut();
-        if reader.read_exact(repr_slice).is_err() {
-            continue;
-        }
+        reader.read_exact(repr_slice)?;
         let maybe_field_elem = E::from_repr(repr);
         if maybe_field_elem.is_some().unwrap_u8() == 1 {
             result.push(maybe_field_elem.unwrap());
         } else {
-            continue;
+            bail!("invalid field element".to_string());
         }
         // repr.read_le(&mut reader)?;
         // result.push(E::Fr::from_repr(repr)?);
-- 
2.43.0


From 96d00b0e1af0d25c9ddd672edfe857a2f1325194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 24/46] fix: the count of a witness file is checked against its
 section without overflow

---
 algebraic-gpu/src/reader.rs | 4 ++--
 algebraic/src/reader.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index 6c4a7f7..f368b2f 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -98,10 +98,10 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
         bail!("invalid section type".to_string());
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         bail!(format!("Invalid witness section size {}", sec_size));
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    let mut result = Vec::new();
     for _ in 0..witness_len {
         let mut repr = E::default().to_repr();
         let repr_slice = repr.as_mut();
diff --git a/algebraic/src/reader.rs b/algebraic/src/reader.rs
index 864fda9..6393c51 100644
--- a/algebraic/src/reader.rs
+++ b/algebraic/src/reader.rs
@@ -124,10 +124,10 @@ pub fn load_witness_from_bin_reader<E: ScalarEngine, R: Read>(mut reader: R) ->
         bail!("invalid section type".to_string());
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         bail!(format!("Invalid witness section size {}", sec_size));
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    let mut result = Vec::new();
     for _ in 0..witness_len {
         let mut repr = E::Fr::zero().into_repr();
         repr.read_le(&mut reader)?;
-- 
2.43.0


From 326e080962f472a30c04df519c5c0cce60f27330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 25/46] fix: witness files are read in the prime of the
 requested field

---
 algebraic-gpu/src/reader.rs | 8 +++++---
 algebraic/src/reader.rs     | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index f368b2f..be84bff 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -73,22 +73,24 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
     if num_sections != 2 {
         bail!("invalid num sections".to_string());
     }
+    let mut modulus = hex::decode(E::MODULUS.trim_start_matches("0x"))?;
+    modulus.reverse();
     // read the first section
     let sec_type = reader.read_u32::<LittleEndian>()?;
     if sec_type != 1 {
         bail!("invalid section type".to_string());
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != 4 + 32 + 4 {
+    if sec_size != 4 + modulus.len() as u64 + 4 {
         bail!("invalid section len".to_string());
     }
     let field_size = reader.read_u32::<LittleEndian>()?;
-    if field_size != 32 {
+    if field_size as usize != modulus.len() {
         bail!("invalid field byte size".to_string());
     }
     let mut prime = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime)?;
-    if prime != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
+    if prime != modulus {
         bail!("invalid curve prime".to_string());
     }
     let witness_len = reader.read_u32::<LittleEndian>()?;
diff --git a/algebraic/src/reader.rs b/algebraic/src/reader.rs
index 6393c51..f7613d3 100644
--- a/algebraic/src/reader.rs
+++ b/algebraic/src/reader.rs
@@ -99,22 +99,24 @@ pub fn load_witness_from_bin_reader<E: ScalarEngine, R: Read>(mut reader: R) ->
     if num_sections != 2 {
         bail!("invalid num sections".to_string());
     }
+    let mut modulus = vec![];
+    E::Fr::char().write_le(&mut modulus)?;
     // read the first section
     let sec_type = reader.read_u32::<LittleEndian>()?;
     if sec_type != 1 {
         bail!("invalid section type".to_string());
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != 4 + 32 + 4 {
+    if sec_size != 4 + modulus.len() as u64 + 4 {
         bail!("invalid section len".to_string());
     }
     let field_size = reader.read_u32::<LittleEndian>()?;
-    if field_size != 32 {
+    if field_size as usize != modulus.len() {
         bail!("invalid field byte size".to_string());
     }
     let mut prime = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime)?;
-    if prime != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
+    if prime != modulus {
         bail!("invalid curve prime".to_string());
     }
     let witness_len = reader.read_u32::<LittleEndian>()?;
-- 
2.43.0


From 82daec32b08091457dade8d2cef448fc4128805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 26/46] fix: circuit inputs are reduced modulo the prime before
 they reach the witness generator

---
 algebraic-gpu/src/witness/witness_calculator.rs | 3 +++
 algebraic/src/witness/witness_calculator.rs     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 5038b33..edefd00 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -157,6 +157,9 @@ impl WitnessCalculator {
             let (msb, lsb) = fnv(&name);
 
             for (i, value) in values.into_iter().enumerate() {
+                // the circuit takes canonical values: 0 <= value < prime
+                let prime = &self.memory.prime;
+                let value = ((value % prime) + prime) % prime;
                 let f_arr = to_array32(&value, n32 as usize);
                 for j in 0..n32 {
                     self.instance.write_shared_rw_memory(
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index dc5d7fe..df92f80 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -157,6 +157,9 @@ impl WitnessCalculator {
             let (msb, lsb) = fnv(&name);
 
             for (i, value) in values.into_iter().enumerate() {
+                // the circuit takes canonical values: 0 <= value < prime
+                let prime = &self.memory.prime;
+                let value = ((value % prime) + prime) % prime;
                 let f_arr = to_array32(&value, n32 as usize);
                 for j in 0..n32 {
                     self.instance.write_shared_rw_memory(
-- 
2.43.0


From 788b58a1783544cd79ccde99451885a3759699cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 27/46] fix: writing the point at infinity of G2 as JSON
 panicked

---
 recursion-gnark/ffi/src/traits.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 1470584..1bff25c 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -219,11 +219,17 @@ mod $mod_name {
             }
 
             fn serialize_g2<S: Serializer>(p: &Self::G2Affine, ser: S) -> Result<S::Ok, S::Error> {
-                let (x, y) = p.xy().unwrap();
                 let mut x_seq = ser.serialize_seq(Some(3))?;
-                x_seq.serialize_element(&vec![x.c0.to_string(), x.c1.to_string()])?;
-                x_seq.serialize_element(&vec![y.c0.to_string(), y.c1.to_string()])?;
-                x_seq.serialize_element(&vec!["1", "0"])?;
+                if let Some((x, y)) = p.xy() {
+                    x_seq.serialize_element(&vec![x.c0.to_string(), x.c1.to_string()])?;
+                    x_seq.serialize_element(&vec![y.c0.to_string(), y.c1.to_string()])?;
+                    x_seq.serialize_element(&vec!["1", "0"])?;
+                } else {
+                    //point at infinity
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                    x_seq.serialize_element(&vec!["1", "0"])?;
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                }
                 x_seq.end()
             }
             fn serialize_gt<S: Serializer>(
-- 
2.43.0


From 36cc32e8dcc84d6c39040979ea4918b738c6bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 28/46] fix: points in JSON that are not on the curve or not in
 the subgroup panicked instead of being refused

---
 recursion-gnark/ffi/src/traits.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 1bff25c..2638bd5 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -160,7 +160,7 @@ mod $mod_name {
                 let x = parse_field(x)?;
                 let y = parse_field(y)?;
                 let z = parse_field(z)?;
-                let p = Self::G1Affine::from($curve::G1Projective::new(x, y, z));
+                let p = Self::G1Affine::from($curve::G1Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -203,7 +203,7 @@ mod $mod_name {
                 let x = $curve::Fq2::new(x0, x1);
                 let y = $curve::Fq2::new(y0, y1);
                 let z = $curve::Fq2::new(z0, z1);
-                let p = $curve::G2Affine::from($curve::G2Projective::new(x, y, z));
+                let p = $curve::G2Affine::from($curve::G2Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -492,8 +492,8 @@ where
                 z.len()
             )))
         } else {
-            Ok(P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
-                .unwrap())
+            P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
+                .map_err(|_| de::Error::custom("Invalid projective point on G2.".to_owned()))
         }
     }
 }
-- 
2.43.0


From 14cc65dff0599dd8520fe96353416234e0a63f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 29/46] fix: reading points from too few bytes panicked

---
 recursion-gnark/ffi/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 2638bd5..f40ddbf 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -554,7 +554,7 @@ where
         check: CheckElement,
     ) -> IoResult<Vec<Self::G1Affine>> {
         let mut buf = vec![0u8; Self::G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED * num];
-        reader.read_exact(&mut buf).unwrap();
+        reader.read_exact(&mut buf)?;
         buf.par_chunks_exact(Self::G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED)
             .map(|chunk| Self::g1_from_bytes(chunk, check))
             .collect::<Result<Vec<_>, SerializationError>>()
@@ -567,7 +567,7 @@ where
         check: CheckElement,
     ) -> IoResult<Vec<Self::G2Affine>> {
         let mut buf = vec![0u8; Self::G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED * num];
-        reader.read_exact(&mut buf).unwrap();
+        reader.read_exact(&mut buf)?;
         buf.par_chunks_exact(Self::G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED)
             .map(|chunk| Self::g2_from_bytes(chunk, check))
             .collect::<Result<Vec<_>, SerializationError>>()
-- 
2.43.0


From 96a2ed4aca905a7253b87568584c2835328e8c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 30/46] fix: Montgomery forms not below the modulus were taken
 for field elements

---
 recursion-gnark/ffi/src/traits.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index f40ddbf..3d4e2b2 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -44,9 +44,11 @@ mod $mod_name {
             fn montgomery_bigint_from_reader(mut reader: impl Read) -> IoResult<Self> {
                 let mut buf = [0u8; Self::SERIALIZED_BYTE_SIZE];
                 reader.read_exact(&mut buf[..])?;
-                Ok(Self::new_unchecked(BigInt::deserialize_uncompressed(
-                    buf.as_slice(),
-                )?))
+                let value = BigInt::deserialize_uncompressed(buf.as_slice())?;
+                if value >= Self::MODULUS {
+                    return Err(SerializationError::InvalidData);
+                }
+                Ok(Self::new_unchecked(value))
             }
             #[inline]
             fn from_reader_for_groth16_zkey(reader: impl Read) -> IoResult<Self> {
@@ -67,9 +69,11 @@ mod $mod_name {
             fn montgomery_bigint_from_reader(mut reader: impl Read) -> IoResult<Self> {
                 let mut buf = [0u8; Self::SERIALIZED_BYTE_SIZE];
                 reader.read_exact(&mut buf[..])?;
-                Ok(Self::new_unchecked(BigInt::deserialize_uncompressed(
-                    buf.as_slice(),
-                )?))
+                let value = BigInt::deserialize_uncompressed(buf.as_slice())?;
+                if value >= Self::MODULUS {
+                    return Err(SerializationError::InvalidData);
+                }
+                Ok(Self::new_unchecked(value))
             }
             #[inline]
             fn from_reader_for_groth16_zkey(reader: impl Read) -> IoResult<Self> {
-- 
2.43.0


From 79285362f82267ac454d948bcbf0a829a85d58d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 31/46] fix: rank-one constraints with a constant factor became
 k*lc + c = 0 instead of k*lc - c = 0

---
 recursion/src/r1cs2plonk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recursion/src/r1cs2plonk.rs b/recursion/src/r1cs2plonk.rs
index 7c22587..85f0e81 100644
--- a/recursion/src/r1cs2plonk.rs
+++ b/recursion/src/r1cs2plonk.rs
@@ -56,6 +56,7 @@ pub fn r1cs2plonk(r1cs: &R1CS<GL>) -> (Vec<PlonkGate>, Vec<PlonkAdd>) {
         lc.retain(|_, v| *v != FGL::ZERO);
     };
 
+    // k * lc1 - lc2
     let join =
         |lc1: &BTreeMap<usize, FGL>, k: &FGL, lc2: &BTreeMap<usize, FGL>| -> BTreeMap<usize, FGL> {
             let mut res: BTreeMap<usize, FGL> = BTreeMap::new();
@@ -70,10 +71,10 @@ pub fn r1cs2plonk(r1cs: &R1CS<GL>) -> (Vec<PlonkGate>, Vec<PlonkAdd>) {
 
             for (key, val) in lc2.iter() {
                 if !res.contains_key(key) {
-                    res.insert(*key, *val);
+                    res.insert(*key, val.neg());
                 } else {
                     let tmp = res[key];
-                    res.insert(*key, *val + tmp);
+                    res.insert(*key, tmp - *val);
                 }
             }
             normalize(&mut res);
-- 
2.43.0


From ee24df51a4bcbcd65b8b9b7b66f673934a5c9a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 32/46] fix: the compressor's row count covered only some
 packings of the gates and no empty system

---
 recursion/src/compressor12/plonk_setup.rs | 28 ++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index a2455d0..e772d0d 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -53,21 +53,33 @@ pub(crate) struct NormalPlonkInfo {
 
 impl NormalPlonkInfo {
     pub(crate) fn new(plonk_constrains: &[PlonkGate]) -> Self {
-        let mut uses: BTreeMap<String, usize> = BTreeMap::new();
+        // The rows that plonk_setup_compressor needs: a row holds two gates of one shape in its first
+        // half and two of another shape, that comes up once the first half is full, in its second half.
+        let mut partial: BTreeMap<String, usize> = BTreeMap::new();
+        let mut half_rows = 0;
+        let mut N = 0;
         let plonk_constrains_len = plonk_constrains.len();
         for (i, c) in plonk_constrains.iter().enumerate() {
             if (i % 10000) == 0 {
                 log::trace!("Plonk info constraint processing... {i}/{plonk_constrains_len}");
             }
             let k = c.str_key();
-
-            uses.entry(k.clone()).and_modify(|e| *e += 1).or_insert_with(|| 1);
+            if let Some(n_used) = partial.get_mut(&k) {
+                *n_used += 1;
+                if *n_used == 2 {
+                    half_rows += 1;
+                    partial.remove(&k);
+                } else if *n_used == 4 {
+                    partial.remove(&k);
+                }
+            } else if half_rows > 0 {
+                half_rows -= 1;
+                partial.insert(k, 3);
+            } else {
+                N += 1;
+                partial.insert(k, 1);
+            }
         }
-        let mut result = uses.values().collect::<Vec<_>>();
-        result.sort(); // sort by asc
-
-        let mut N = result.iter().fold(0, |acc, x| acc + (**x - 1) / 2 + 1);
-        N = (N - 1) / 2 + 1;
 
         Self {
             N,
-- 
2.43.0


From 93a4691ed726ee46c8bb242a3e8815f320529095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 33/46] fix: compressing a circuit without public values
 underflowed

---
 recursion/src/compressor12/plonk_setup.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index e772d0d..39b6b13 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -193,7 +193,7 @@ impl PlonkSetupRenderInfo {
 
         // 4. calculate columns,rows,constraints info.
         let n_publics = r1cs.num_inputs + r1cs.num_outputs - 1;
-        let n_public_rows = (n_publics - 1) / 12 + 1;
+        let n_public_rows = n_public_rows(n_publics);
 
         log::debug!("{n_publics} {n_public_rows} {} {:?}", plonk_info.N, custom_gates_info);
         let n_used = n_public_rows
@@ -219,6 +219,11 @@ impl PlonkSetupRenderInfo {
     }
 }
 
+// There is always a first row: Global.L1 belongs to every program.
+fn n_public_rows(n_publics: usize) -> usize {
+    n_publics.max(1).div_ceil(12)
+}
+
 pub fn plonk_setup_compressor(
     r1cs: &R1CS<GL>,
     pil: &PIL,
@@ -230,7 +235,7 @@ pub fn plonk_setup_compressor(
 
     let n_used = plonk_setup_info.n_used;
     let n_publics = plonk_setup_info.n_publics;
-    let n_public_rows = (n_publics - 1) / 12 + 1;
+    let n_public_rows = n_public_rows(n_publics);
 
     log::debug!("n_used {n_used}, n_publics {n_publics}, rows: {n_public_rows}");
     // 2. init sMap and construct it.
-- 
2.43.0


From c76e124794ee56bfe67c5adea6e2f2e6a0b495bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 34/46] fix: the compressor counted public outputs twice

---
 recursion/src/compressor12/plonk_setup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index 39b6b13..f83a4e4 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -192,7 +192,8 @@ impl PlonkSetupRenderInfo {
         let custom_gates_info = CustomGateInfo::from_r1cs(r1cs);
 
         // 4. calculate columns,rows,constraints info.
-        let n_publics = r1cs.num_inputs + r1cs.num_outputs - 1;
+        // num_inputs counts the constant, the public outputs and the public inputs
+        let n_publics = r1cs.num_inputs - 1;
         let n_public_rows = n_public_rows(n_publics);
 
         log::debug!("{n_publics} {n_public_rows} {} {:?}", plonk_info.N, custom_gates_info);
-- 
2.43.0


From 721babf8a304c1c0e55a2c52e58376df8c1773f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 35/46] fix: the first custom gate of a circuit was also taken
 for every gate the circuit does not have

---
 recursion/src/compressor12/plonk_setup.rs | 30 +++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index f83a4e4..02a4dbb 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -92,10 +92,10 @@ impl NormalPlonkInfo {
 
 #[derive(Debug)]
 pub(crate) struct CustomGateInfo {
-    pub(crate) poseidon_id: u64,
-    pub(crate) c_mul_add_id: u64,
+    pub(crate) poseidon_id: Option<u64>,
+    pub(crate) c_mul_add_id: Option<u64>,
     pub(crate) fft_params: BTreeMap<usize, Vec<FGL>>,
-    pub(crate) ev_pol_id: u64,
+    pub(crate) ev_pol_id: Option<u64>,
 
     pub(crate) n_poseidon: u64,
     pub(crate) n_c_mul_add: u64,
@@ -112,24 +112,24 @@ impl CustomGateInfo {
     }
 
     fn from_r1cs(r1cs: &R1CS<GL>) -> Self {
-        let mut c_mul_add_id = 0;
-        let mut poseidon_id = 0;
-        let mut ev_pol_id = 0;
+        let mut c_mul_add_id = None;
+        let mut poseidon_id = None;
+        let mut ev_pol_id = None;
         // let mut fft_params = vec![vec![]; r1cs.custom_gates.len()];
         let mut fft_params: BTreeMap<usize, Vec<FGL>> = BTreeMap::new();
 
         for (i, c) in r1cs.custom_gates.iter().enumerate() {
             match c.template_name.as_str() {
                 "CMulAdd" => {
-                    c_mul_add_id = i as u64;
+                    c_mul_add_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "Poseidon12" => {
-                    poseidon_id = i as u64;
+                    poseidon_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "EvPol4" => {
-                    ev_pol_id = i as u64;
+                    ev_pol_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "FFT4" => {
@@ -144,13 +144,13 @@ impl CustomGateInfo {
         let mut n_fft = 0;
         let mut n_ev_pol = 0;
         for c in r1cs.custom_gates_uses.iter() {
-            if c.id == c_mul_add_id {
+            if Some(c.id) == c_mul_add_id {
                 n_c_mul_add += 1;
-            } else if c.id == poseidon_id {
+            } else if Some(c.id) == poseidon_id {
                 n_poseidon += 1;
             } else if Self::check_fft_param_defined(&fft_params, c.id) {
                 n_fft += 1;
-            } else if c.id == ev_pol_id {
+            } else if Some(c.id) == ev_pol_id {
                 n_ev_pol += 1;
             } else {
                 panic!("Custom gate not defined {}", c.id);
@@ -402,7 +402,7 @@ pub fn plonk_setup_compressor(
         if (i % 10000) == 0 {
             log::trace!("Processing custom gates... {}/{}", i, r1cs.custom_gates_uses.len());
         }
-        if cgu.id == custom_gates_info.poseidon_id {
+        if Some(cgu.id) == custom_gates_info.poseidon_id {
             assert_eq!(cgu.signals.len(), 31 * 12);
             for j in 0..31 {
                 let index = r + j;
@@ -447,7 +447,7 @@ pub fn plonk_setup_compressor(
                 );
             }
             r += 31;
-        } else if cgu.id == custom_gates_info.c_mul_add_id {
+        } else if Some(cgu.id) == custom_gates_info.c_mul_add_id {
             if r < n_used {
                 for (j, map) in s_map.iter_mut().enumerate().take(12) {
                     map[r] = cgu.signals[j];
@@ -608,7 +608,7 @@ pub fn plonk_setup_compressor(
                 );
             }
             r += 2;
-        } else if cgu.id == custom_gates_info.ev_pol_id {
+        } else if Some(cgu.id) == custom_gates_info.ev_pol_id {
             for (j, map) in s_map.iter_mut().enumerate().take(12) {
                 map[r] = cgu.signals[j];
                 const_pols.set_matrix(
-- 
2.43.0


From a633f17eaf5f78fa2e2aa2dc15d54d8bc05a6f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 36/46] fix: exported names of powdr paths kept half of the
 separator

---
 recursion/src/pilcom/export.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recursion/src/pilcom/export.rs b/recursion/src/pilcom/export.rs
index 15b2305..9001eea 100644
--- a/recursion/src/pilcom/export.rs
+++ b/recursion/src/pilcom/export.rs
@@ -188,7 +188,7 @@ fn fixup_name(name: &str) -> String {
     if name.contains('.') {
         name.to_string()
     } else if let Some(last) = name.rfind("::") {
-        format!("{}.{}", &name[..last], &name[last + 1..])
+        format!("{}.{}", &name[..last], &name[last + 2..])
     } else {
         panic!("Witness or intermediate column is not inside a namespace: {name}");
     }
-- 
2.43.0


From 8aa8989e4976916e53595c4c238adfcf8a5e0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 37/46] fix: check the queries of a STARK with a single FRI
 step in the generated circuit

---
 starky/src/stark_verifier_circom.rs | 58 ++++++++++++++---------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index 0e77f7f..855e105 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -1282,6 +1282,35 @@ template StarkVerifier() {{
         "#,
     );
 
+    //// Checks of the queries, whatever the number of FRI steps
+    let enable2 = if starkinfo.map_sectionsN.cm2_2ns > 0 {
+        "enable * (s0_merkle2[q].root[j] - root2[j]) === 0;"
+    } else {
+        ""
+    };
+    let enable3 = if starkinfo.map_sectionsN.cm3_2ns > 0 {
+        "enable * (s0_merkle3[q].root[j] - root3[j]) === 0;"
+    } else {
+        ""
+    };
+    res.push_str(&format!(
+        r#"
+    for(var q = 0; q < {}; q ++) {{
+        for(var j = 0; j < 4; j ++) {{
+            enable * (s0_merkle1[q].root[j] - root1[j]) === 0;
+            {}
+            {}
+            enable * (s0_merkle4[q].root[j] - root4[j]) === 0;
+            enable * (s0_merkleC[q].root[j] - rootC[j]) === 0;
+        }}
+        for (var e = 0; e < 3; e ++) {{
+            enable * (s0_lowValues[q].out[e] - verifyQueries[q].out[e]) === 0;
+        }}
+    }}
+        "#,
+        stark_struct.nQueries, enable2, enable3
+    ));
+
     for s in 1..stark_struct.steps.len() {
         res.push_str(&format!(
             r#"
@@ -1422,35 +1451,6 @@ template StarkVerifier() {{
             ));
         }
 
-        //// Checks
-        let enable2 = if starkinfo.map_sectionsN.cm2_2ns > 0 {
-            "enable * (s0_merkle2[q].root[j] - root2[j]) === 0;"
-        } else {
-            ""
-        };
-        let enable3 = if starkinfo.map_sectionsN.cm3_2ns > 0 {
-            "enable * (s0_merkle3[q].root[j] - root3[j]) === 0;"
-        } else {
-            ""
-        };
-        res.push_str(&format!(
-            r#"
-        for(var q = 0; q < {}; q ++) {{
-            for(var j = 0; j < 4; j ++) {{
-                enable * (s0_merkle1[q].root[j] - root1[j]) === 0;
-                {}
-                {}
-                enable * (s0_merkle4[q].root[j] - root4[j]) === 0;
-                enable * (s0_merkleC[q].root[j] - rootC[j]) === 0;
-            }}
-            for (var e = 0; e < 3; e ++) {{
-                enable * (s0_lowValues[q].out[e] - verifyQueries[q].out[e]) === 0;
-            }}
-        }}
-        "#,
-            stark_struct.nQueries, enable2, enable3
-        ));
-
         res.push_str(&format!(
             r#"
         for (var e=0; e<3; e++) {{
-- 
2.43.0


From 714e800ebe36c094edb9bc24ac374f2e3b98a059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 38/46] fix: connect the sections of the optional trees in the
 generated main circuits

---
 starky/src/stark_verifier_circom.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index 855e105..2d7a64a 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -802,6 +802,22 @@ template MapValues() {{
     res
 }
 
+// Hand the rows and paths of the optional trees over to a verifier component
+fn connect_sections(starkinfo: &StarkInfo, component: &str, prefix: &str) -> String {
+    let mut res = String::new();
+    for (section, tree) in [("cm2_2ns", 2), ("cm3_2ns", 3)] {
+        if starkinfo.map_sectionsN.get(section) > 0 {
+            res.push_str(&format!(
+                r#"
+    {component}.s0_vals{tree} <== {prefix}s0_vals{tree};
+    {component}.s0_siblings{tree} <== {prefix}s0_siblings{tree};
+            "#
+            ));
+        }
+    }
+    res
+}
+
 #[time_profiler()]
 fn stark_verifier<F: ff::PrimeField + Default>(
     starkinfo: &StarkInfo,
@@ -1630,17 +1646,16 @@ template Main() {{
     vA.root4 <== root4;
     vA.evals <== evals;
     vA.s0_vals1 <== s0_vals1;
-    vA.s0_vals3 <== s0_vals3;
     vA.s0_vals4 <== s0_vals4;
     vA.s0_valsC <== s0_valsC;
     vA.s0_siblings1 <== s0_siblings1;
-    vA.s0_siblings3 <== s0_siblings3;
     vA.s0_siblings4 <== s0_siblings4;
     vA.s0_siblingsC <== s0_siblingsC;
 
     vA.finalPol <== finalPol;
             "#,
         );
+        res.push_str(&connect_sections(starkinfo, "vA", ""));
 
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
@@ -1791,17 +1806,16 @@ template Main() {{
     vA.rootC <== rootC;
     vA.evals <== evals;
     vA.s0_vals1 <== s0_vals1;
-    vA.s0_vals3 <== s0_vals3;
     vA.s0_vals4 <== s0_vals4;
     vA.s0_valsC <== s0_valsC;
     vA.s0_siblings1 <== s0_siblings1;
-    vA.s0_siblings3 <== s0_siblings3;
     vA.s0_siblings4 <== s0_siblings4;
     vA.s0_siblingsC <== s0_siblingsC;
 
     vA.finalPol <== finalPol;
             "#,
         );
+        res.push_str(&connect_sections(starkinfo, "vA", ""));
 
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
@@ -2030,11 +2044,9 @@ template Main() {{
     vA.rootC <== a_rootC;
     vA.evals <== a_evals;
     vA.s0_vals1 <== a_s0_vals1;
-    vA.s0_vals3 <== a_s0_vals3;
     vA.s0_vals4 <== a_s0_vals4;
     vA.s0_valsC <== a_s0_valsC;
     vA.s0_siblings1 <== a_s0_siblings1;
-    vA.s0_siblings3 <== a_s0_siblings3;
     vA.s0_siblings4 <== a_s0_siblings4;
     vA.s0_siblingsC <== a_s0_siblingsC;
 
@@ -2042,6 +2054,7 @@ template Main() {{
             "#,
             pil.publics.len()
         ));
+        res.push_str(&connect_sections(starkinfo, "vA", "a_"));
         // component isOneBatchA = IsZero();
         // isOneBatchA.in  <== a_publics[43] - a_publics[16] - 1; a_publics[43]-> newBatchNum;  a_publics[16]-> oldBatchNum
         // TODO: "vA.rootC <== rootCSingle;" this need to change!!!
@@ -2070,11 +2083,9 @@ template Main() {{
     vB.rootC <== b_rootC;
     vB.evals <== b_evals;
     vB.s0_vals1 <== b_s0_vals1;
-    vB.s0_vals3 <== b_s0_vals3;
     vB.s0_vals4 <== b_s0_vals4;
     vB.s0_valsC <== b_s0_valsC;
     vB.s0_siblings1 <== b_s0_siblings1;
-    vB.s0_siblings3 <== b_s0_siblings3;
     vB.s0_siblings4 <== b_s0_siblings4;
     vB.s0_siblingsC <== b_s0_siblingsC;
 
@@ -2082,6 +2093,7 @@ template Main() {{
             "#,
             pil.publics.len()
         ));
+        res.push_str(&connect_sections(starkinfo, "vB", "b_"));
 
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
-- 
2.43.0


From 8df816b644e32b13aaf7f62aa783fd916a9a3f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 39/46] fix: arithmetic on base field operands in the generated
 on-chain circuit

---
 starky/src/stark_verifier_circom_onchain.rs | 35 +++++++--------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index e7a4325..00c9a7e 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -216,7 +216,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
                     str_code.push_str(&format!(
                         r#"
-    signal {} <== {}[0] + {}[0];"#,
+    signal {} <== {} + {};"#,
                         ref_(&inst.dest),
                         ref_(&inst.src[0]),
                         ref_(&inst.src[1])
@@ -261,7 +261,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
                     str_code.push_str(&format!(
                         r#"
-    signal {} <== {} - {};"#,
+    signal {} <== {} - {} + p;"#,
                         ref_(&inst.dest),
                         ref_(&inst.src[0]),
                         ref_(&inst.src[1])
@@ -306,7 +306,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
                     str_code.push_str(&format!(
                         r#"
-    signal {} = GLCMul1()({}, {});"#,
+    signal {} <== GLMul()({}, {});"#,
                         ref_(&inst.dest),
                         ref_(&inst.src[0]),
                         ref_(&inst.src[1])
@@ -359,28 +359,15 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 }
             }
             "muladd" => {
-                if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
-                    if inst.src[2].dim == 1 {
-                        str_code.push_str(&format!(
-                            r#"
+                if inst.src[0].dim == 1 && inst.src[1].dim == 1 && inst.src[2].dim == 1 {
+                    str_code.push_str(&format!(
+                        r#"
     signal {} <== GLMulAdd()({}, {}, {});"#,
-                            ref_(&inst.dest),
-                            ref_(&inst.src[0]),
-                            ref_(&inst.src[1]),
-                            ref_(&inst.src[2])
-                        ));
-                    } else {
-                        str_code.push_str(&format!(
-                            r#"
-    signal {}[3] <== [GLMulAdd()({}, {}, {}[0]), {}[1], {}[2]);"#,
-                            ref_(&inst.dest),
-                            ref_(&inst.src[0]),
-                            ref_(&inst.src[1]),
-                            ref_(&inst.src[2]),
-                            ref_(&inst.src[2]),
-                            ref_(&inst.src[2])
-                        ));
-                    }
+                        ref_(&inst.dest),
+                        ref_(&inst.src[0]),
+                        ref_(&inst.src[1]),
+                        ref_(&inst.src[2])
+                    ));
                 } else {
                     let ina = match inst.src[0].dim {
                         1 => format!("[{}, 0, 0]", ref_(&inst.src[0])),
-- 
2.43.0


From 9a6054b751283b7efe8b7ffd833d67cb56d1324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 40/46] fix: canonical constants in the generated on-chain
 circuit

---
 starky/src/stark_verifier_circom_onchain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index 00c9a7e..cbc2aa4 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -9,7 +9,7 @@ use crate::starkinfo_codegen::Node;
 use crate::starkinfo_codegen::Section;
 use crate::traits::FieldExtension;
 use crate::traits::MTNodeType;
-use crate::types::{StarkStruct, PIL};
+use crate::types::{parse_pil_number, StarkStruct, PIL};
 use profiler_macro::time_profiler;
 
 fn header() -> String {
@@ -205,7 +205,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 r.id - starkinfo.n_cm1 - starkinfo.n_cm2 - starkinfo.n_cm3
             ),
             "const" => format!("consts[{}]", r.id),
-            "number" => r.value.as_ref().unwrap().to_string(),
+            "number" => parse_pil_number(r.value.as_ref().unwrap()).to_string(),
             _ => panic!("Invalid ref: {}", r.type_),
         }
     };
-- 
2.43.0


From ea53b931eb2a8ebba0a13cf495dd066756c96659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 41/46] fix: the point of a two-element FRI layer in the
 generated on-chain circuit

---
 starky/src/stark_verifier_circom_onchain.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index cbc2aa4..a237b54 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -1386,7 +1386,7 @@ template StarkVerifier() {{
             stark_struct.steps[s - 1].nBits
         ));
 
-        if stark_struct.steps[0].nBits > 1 {
+        if stark_struct.steps[s].nBits > 1 {
             res.push_str(&format!(
                 r#"
         s{}_X[q] <== s{}_sx[q][{}].out;
@@ -1398,13 +1398,12 @@ template StarkVerifier() {{
         } else {
             res.push_str(&format!(
                 r#"
-        s{}_X[q] <== {} *  ( ys[q][0] * {} +1);
+        s{}_X[q] <== ys[q][0] * ({} - {}) + {};
         "#,
                 s,
-                (F3G::from(*SHIFT)
-                    .exp(1 << (stark_struct.nBitsExt - stark_struct.steps[s - 1].nBits)))
-                .inv(),
-                F3G::from(MG.0[stark_struct.steps[s - 1].nBits]) - F3G::ONE
+                e1.as_int(),
+                e0.as_int(),
+                e0.as_int()
             ));
         }
 
-- 
2.43.0


From 1ca512399c75091006e9d525ad91b3ad25db8128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 42/46] fix: the negative of zero is zero in the vector back
 ends

---
 fields/src/arch/x86_64/avx2_field_gl.rs   | 3 +--
 fields/src/arch/x86_64/avx512_field_gl.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/fields/src/arch/x86_64/avx2_field_gl.rs b/fields/src/arch/x86_64/avx2_field_gl.rs
index 28d0a2c..9657688 100644
--- a/fields/src/arch/x86_64/avx2_field_gl.rs
+++ b/fields/src/arch/x86_64/avx2_field_gl.rs
@@ -351,8 +351,7 @@ unsafe fn sub(x: __m256i, y: __m256i) -> __m256i {
 
 #[inline]
 unsafe fn neg(y: __m256i) -> __m256i {
-    let y_s = shift(y);
-    _mm256_sub_epi64(SHIFTED_FIELD_ORDER, canonicalize_s(y_s))
+    sub(_mm256_setzero_si256(), y)
 }
 
 /// Full 64-bit by 64-bit multiplication. This emulated multiplication is 1.33x slower than the
diff --git a/fields/src/arch/x86_64/avx512_field_gl.rs b/fields/src/arch/x86_64/avx512_field_gl.rs
index c853b58..b64b250 100644
--- a/fields/src/arch/x86_64/avx512_field_gl.rs
+++ b/fields/src/arch/x86_64/avx512_field_gl.rs
@@ -291,7 +291,7 @@ unsafe fn sub(x: __m512i, y: __m512i) -> __m512i {
 
 #[inline]
 unsafe fn neg(y: __m512i) -> __m512i {
-    _mm512_sub_epi64(FIELD_ORDER, canonicalize(y))
+    sub(_mm512_setzero_si512(), y)
 }
 
 const LO_32_BITS_MASK: __mmask16 = unsafe { transmute(0b0101010101010101u16) };
-- 
2.43.0


From 236f2e48418eb4d0756ff0a27ddf7c6112c5dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 43/46] fix: AVX2 Poseidon with more than four outputs

---
 starky/src/arch/x86_64/avx2_poseidon_gl.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/starky/src/arch/x86_64/avx2_poseidon_gl.rs b/starky/src/arch/x86_64/avx2_poseidon_gl.rs
index c1d6aa0..95ca378 100644
--- a/starky/src/arch/x86_64/avx2_poseidon_gl.rs
+++ b/starky/src/arch/x86_64/avx2_poseidon_gl.rs
@@ -412,10 +412,14 @@ impl Poseidon {
         Self::pow7_triple(&mut st0, &mut st1, &mut st2);
         Self::mmult_avx(&mut st0, &mut st1, &mut st2, &M[0..144]);
 
-        let st0_slice = st0.as_slice();
-
         let mut result_vec: Vec<FGL> = Vec::new();
-        result_vec.extend(st0_slice.iter().map(|&repr| FGL::from_repr(repr).unwrap()));
+        for st in [&st0, &st1, &st2] {
+            result_vec.extend(
+                st.as_slice()
+                    .iter()
+                    .map(|&repr| FGL::from_repr(repr).unwrap()),
+            );
+        }
 
         Ok(result_vec[..out].to_vec())
     }
-- 
2.43.0


From 31228693a7216979476d8ab735217b62e5e8feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 44/46] fix: on-chain circuits took challenges and BLS12381
 query indices from any bits congruent to the transcript's output

---
 stark-circuits/circuits/bn1togl3.circom     | 24 ++++++++++++++++++++-
 starky/src/stark_verifier_circom_onchain.rs |  2 +-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/stark-circuits/circuits/bn1togl3.circom b/stark-circuits/circuits/bn1togl3.circom
index e3d1980..4fdd175 100644
--- a/stark-circuits/circuits/bn1togl3.circom
+++ b/stark-circuits/circuits/bn1togl3.circom
@@ -3,11 +3,33 @@ pragma circom 2.0.6;
 
 include "bitify.circom";
 
+// The bits of the one representative of in below the modulus: n bits wide enough for the field have more of them.
+template Num2BitsBelowModulus(n) {
+    signal input in;
+    signal output out[n];
+
+    component n2b = Num2Bits(n);
+    n2b.in <== in;
+
+    // gt[i]: the low i bits are above the low i bits of the modulus minus one
+    signal gt[n+1];
+    gt[0] <== 0;
+    for (var i=0; i<n; i++) {
+        if (((-1 >> i) & 1) == 1) {
+            gt[i+1] <== n2b.out[i]*gt[i];
+        } else {
+            gt[i+1] <== n2b.out[i] + gt[i] - n2b.out[i]*gt[i];
+        }
+        out[i] <== n2b.out[i];
+    }
+    gt[n] === 0;
+}
+
 template BN1toGL3() {
     signal input in;
     signal output out[3];
 
-    component n2b = Num2Bits(255);
+    component n2b = Num2BitsBelowModulus(255);
 
     n2b.in <== in;
 
diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index a237b54..4f1f4a2 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -152,7 +152,7 @@ impl Transcript {
         let mut n2b: Vec<String> = vec![];
         let n2bt = match self.stark_struct.verificationHashType.as_str() {
             "BN128" => "Num2Bits_strict()".to_string(),
-            "BLS12381" => "Num2Bits(255)".to_string(),
+            "BLS12381" => "Num2BitsBelowModulus(255)".to_string(),
             _ => todo!(),
         };
         for i in 0..NFields {
-- 
2.43.0


From fadf9bf479cb805fcb85e6fe8564e8bd5becd36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 45/46] fix: zkvm: read a machine's setup at the size the
 machine is proved at, not the main machine's

---
 zkvm/src/lib.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/zkvm/src/lib.rs b/zkvm/src/lib.rs
index c07db3c..2f92db9 100644
--- a/zkvm/src/lib.rs
+++ b/zkvm/src/lib.rs
@@ -112,17 +112,8 @@ fn generate_verifier<F: FieldElement>(
             machine_proof.size
         );
 
-        // FIXME: get the sub machine PIL
-        //let pil = pipeline.optimized_pil().unwrap();
-        //let degree = pil.degree();
-        let fixed_cols = pipeline.fixed_cols().unwrap();
-        let degree = get_uniquely_sized(&fixed_cols)
-            .unwrap()
-            .iter()
-            .find(|(col, _)| col == "main.STEP")
-            .unwrap()
-            .1
-            .len() as u64;
+        // the size this machine is proved at, which its setup is for
+        let degree = machine_proof.size;
 
         assert!(degree > 1);
         let n_bits = (DegreeType::BITS - (degree - 1).leading_zeros()) as usize;
-- 
2.43.0


From 346421ea1877759781366fa32cee2a7c4a22b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 46/46] fix: recursion-gnark: write a point at infinity in the
 form the reader takes

---
 recursion-gnark/ffi/go/eigen/utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recursion-gnark/ffi/go/eigen/utils.go b/recursion-gnark/ffi/go/eigen/utils.go
index 7a60146..4bc74cb 100644
--- a/recursion-gnark/ffi/go/eigen/utils.go
+++ b/recursion-gnark/ffi/go/eigen/utils.go
@@ -123,6 +123,9 @@ func g1ToString(p *bls12381curve.G1Affine) ([]string, error) {
 	if p == nil {
 		return nil, fmt.Errorf("nil G1 point")
 	}
+	if p.IsInfinity() {
+		return []string{"0", "1", "0"}, nil
+	}
 	xBig := p.X.BigInt(new(big.Int))
 	yBig := p.Y.BigInt(new(big.Int))
 	return []string{
@@ -136,6 +139,9 @@ func g2ToString(p *bls12381curve.G2Affine) ([][]string, error) {
 	if p == nil {
 		return nil, fmt.Errorf("nil G2 point")
 	}
+	if p.IsInfinity() {
+		return [][]string{{"0", "0"}, {"1", "0"}, {"0", "0"}}, nil
+	}
 	x0 := p.X.A0.BigInt(new(big.Int))
 	x1 := p.X.A1.BigInt(new(big.Int))
 	y0 := p.Y.A0.BigInt(new(big.Int))
-- 
2.43.0

