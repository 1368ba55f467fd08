From 5d49f2d1a2087dbee87f781562270dcd8d462893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 01/26] fix: reduce exact negative multiples of a pivot to zero
 in integer reduced_basis

For v[col] = -k * b[col] the truncated quotient is exact, but one was
subtracted anyway, leaving b[col] instead of 0 above the pivot, so the
reduced basis of a lattice was not unique.
---
 src/arithmetic/linear_algebra.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 99c3f1d..525550e 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -166,8 +166,9 @@ fn normalize_column_primitive_int<T>(col: usize, v: &mut Vec<T>)
 fn reduce_column_primitive_int<T>(col: usize, v: &mut Vec<T>, b: &Vec<T>)
     where T: num_traits::PrimInt + SubAssign
 {
-    let f = v[col] / b[col] - (
-        if v[col] < T::zero() { T::one() } else { T::zero() }
+    let q = v[col] / b[col];
+    let f = q - (
+        if v[col] < q * b[col] { T::one() } else { T::zero() }
     );
 
     if f != T::zero() {
-- 
2.43.0


From 4cfa56dc18da2ee5153af398c7ed564db4ff795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 02/26] fix: keep the basis returned by rational_lattice_basis
 right-handed

The orientation of the basis depended on the order and signs of the
given vectors, so that passing to a primitive cell could silently turn
a right-handed cell into a left-handed one.
---
 src/spacegroups/lattices.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/lattices.rs b/src/spacegroups/lattices.rs
index 41975d7..5b75798 100644
--- a/src/spacegroups/lattices.rs
+++ b/src/spacegroups/lattices.rs
@@ -5,7 +5,7 @@ use num_rational::BigRational;
 use num_traits::{One, ToPrimitive, abs};
 use num_integer::Integer;
 
-use crate::arithmetic::linear_algebra::extend_basis;
+use crate::arithmetic::linear_algebra::{extend_basis, Scalar};
 use super::types::{Coord, CoordPtr};
 
 
@@ -242,6 +242,11 @@ pub fn rational_lattice_basis(vectors: &Vec<Vec<BigRational>>)
         extend_basis(&d, &mut basis);
     }
 
+    // the basis is triangular; keep it right-handed
+    for k in 0..dim {
+        Scalar::normalize_column(k, &mut basis[k]);
+    }
+
     basis.iter()
         .map(|b| b.iter()
             .map(|x| BigRational::from(BigInt::from(*x)) / &f)
-- 
2.43.0


From ed5710b8ec5ccee81881b1fccf5d2765e90bd9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 03/26] fix: reduce negative coordinates modulo Z to the same
 representative

mod_z used '%', which keeps the sign, so that -1/2 and 1/2 stayed
different although they differ by a lattice translation; generate()
then listed the same operation more than once.
---
 src/arithmetic/geometry.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/arithmetic/geometry.rs b/src/arithmetic/geometry.rs
index a5fd2fa..3295856 100644
--- a/src/arithmetic/geometry.rs
+++ b/src/arithmetic/geometry.rs
@@ -116,10 +116,13 @@ impl<T, CS> Neg for Vector<T, CS>
 
 
 impl<T, CS> ModZ for Vector<T, CS>
-    where T: Clone + One + Rem<Output=T>
+    where T: Clone + Zero + One + Rem<Output=T>
 {
     fn mod_z(&self) -> Self {
-        self.iter().cloned().map(|x| x % T::one()).collect()
+        // '%' keeps the sign of its left operand
+        self.iter().cloned()
+            .map(|x| (x % T::one() + T::one()) % T::one())
+            .collect()
     }
 }
 
@@ -637,7 +640,7 @@ impl<T: Clone + Zero, CS: Clone> From<Matrix<T>> for AffineMap<T, CS> {
 }
 
 impl<T, CS> ModZ for AffineMap<T, CS>
-    where T: Clone + One + Rem<Output=T>, CS: Clone
+    where T: Clone + Zero + One + Rem<Output=T>, CS: Clone
 {
     fn mod_z(&self) -> Self {
         AffineMap::new(&self.linear_matrix(), &self.shift().mod_z())
-- 
2.43.0


From 1e9520e7e01516660aed27673a53e7af5684835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 04/26] fix: find graph symmetries independently of the
 coordinate system

The linear map taking the edge vectors in the rows of B0 to those in the
rows of Bi is (B0^-1 Bi)^T; Bi B0^-1 is only conjugate to it, so that most
symmetries were missed unless B0 happened to be special.
---
 src/symmetries.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 9dfd9e1..44893f7 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -147,7 +147,8 @@ pub fn symmetries<T, CS>(graph: &Graph<T, CS>) -> Vec<Automorphism<T, CS>>
 
     for i in 0..edge_lists.len() {
         if p.find(&edge_lists[i]) != p.find(&edge_lists[0]) {
-            let m = &bases[i] * &inv_b;
+            // Edge vectors are rows here, but affine maps act on columns.
+            let m = (&inv_b * &bases[i]).transpose();
 
             if is_unimodular(&m) {
                 let aff = &AffineMap::new(&m, &Vector::zero(T::dim()));
-- 
2.43.0


From 5742d991adea67467ac825ff859b98805d5c0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 05/26] fix: convert shifts to the basis given by rows in
 minimal_image

The basis vectors are the rows of the matrix, while the affine map acts on
columns, so the inverse needs to be transposed.
---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 44893f7..cc869e1 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -77,7 +77,7 @@ pub fn minimal_image<TIn, TOut, CSIn, CSOut>(graph: &Graph<TIn, CSIn>)
     } else {
         let b = extended_translation_basis(graph, &orbits[0]);
         let rows = b.iter().map(|v| Matrix::row(v)).collect::<Vec<_>>();
-        let m = Matrix::vstack(&rows).inverse().unwrap();
+        let m = Matrix::vstack(&rows).inverse().unwrap().transpose();
         let aff = &AffineMap::new(&m, &Vector::zero(TIn::dim()));
 
         let mut imgs = HashMap::new();
-- 
2.43.0


From eab88fbe84a72e21fc2a4a06466ceb350f34d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 06/26] fix: reduce negative multiples of the modulus to zero

modular_row_echelon_form turned them into the modulus itself, which has no
inverse, and panicked.
---
 src/arithmetic/modular_solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 347f16a..420cec0 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -32,7 +32,7 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
     for row in matrix {
         assert!(a.len() == 0 || row.len() == a[0].len());
         let row = row.iter()
-            .map(|&n| n % prime + if n < 0 { prime } else { 0 })
+            .map(|&n| n.rem_euclid(prime))
             .collect();
         a.push(row);
     }
-- 
2.43.0


From d88b6c73f5be266cc979eefcd271ab58ebc9c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 07/26] fix: advance the pivot row only after finding a pivot

modular_row_echelon_form skipped a row for each column without a pivot, so
the result was not an echelon form for matrices such as [[0, 2]].
---
 src/arithmetic/modular_solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 420cec0..9d5166d 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -63,9 +63,9 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
                     }
                 }
             }
-        }
 
-        irow += 1;
+            irow += 1;
+        }
     }
 
     a
-- 
2.43.0


From 8e43e4b343e74ce574f2df59974d97806f0f392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 08/26] Expose the parts of an automorphism under
 cfg(rust_systre_verif)

---
 src/pgraphs.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index 851e06e..8a05e2c 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -631,6 +631,21 @@ impl<T, CS> Automorphism<T, CS>
 }
 
 
+#[cfg(rust_systre_verif)]
+impl<T, CS> Automorphism<T, CS>
+    where
+        T: Eq + Hash,
+        CS: Eq + Hash
+{
+    /// Read access for verification harnesses.
+    pub fn verif_parts(&self)
+        -> (&HashMap<Vertex, Vertex>, &HashMap<Edge<T, CS>, Edge<T, CS>>, &AffineMap)
+    {
+        (&self.vertex_map, &self.edge_map, &self.transform)
+    }
+}
+
+
 impl<T, CS> Mul<&Automorphism<T, CS>> for &Automorphism<T, CS>
     where
         T: Clone + Eq + Hash,
-- 
2.43.0


From 528170ab26e0b0b2b1f79b2255addeeb6d357c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:26 +0000
Subject: [PATCH 09/26] fix: require invariance of the Gram matrix under maps
 acting on columns

---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 5f6999e..0ba6d3b 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -120,7 +120,7 @@ pub fn gram_matrix_configuration_space<CS: Clone>(
                 let mut eqn = vec![BigRational::zero(); m];
                 for ja in 0..dim {
                     for jb in 0..dim {
-                        eqn[k[(ja, jb)]] += &s[(ia, ja)] * &s[(ib, jb)];
+                        eqn[k[(ja, jb)]] += &s[(ja, ia)] * &s[(jb, ib)];
                     }
                 }
                 eqn[k[(ia, ib)]] -= BigRational::one();
-- 
2.43.0


From fb75fc0b27c4d4ebb42ca48e667b5bb427d20f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 10/26] fix: return all shifts from shift_space if the group
 has no linear part

---
 src/spacegroups/basics.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 0ba6d3b..0c4353a 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -152,8 +152,12 @@ pub fn shift_space<CS: Clone>(ops: &Vec<AffineMap<BigRational, CS>>)
         }
     }
 
-    let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
-    Matrix::vstack(&eqns).null_space()
+    if eqns.is_empty() {
+        Some(Matrix::identity(dim))
+    } else {
+        let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
+        Matrix::vstack(&eqns).null_space()
+    }
 }
 
 
-- 
2.43.0


From a05f6bfdd7fe8fc45e62c3439375358f66937006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:29 +0000
Subject: [PATCH 11/26] fix: allow groups without centering translations in
 PrimitiveSetting::new

---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 0c4353a..a4a4059 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -63,7 +63,7 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
         let id = Matrix::identity(dim);
         let s0 = Vector::zero(dim);
 
-        let mut translations = vec![];
+        let mut translations = vec![vec![BigRational::zero(); dim]];
         for op in ops_all {
             if op.linear_matrix() == id && op.shift() != s0 {
                 translations.push(op.shift().into_iter().collect());
-- 
2.43.0


From eabaf157360c2fea0a49cb8e3cfc467674c5244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 12/26] fix: reject fractions with denominator zero in
 operators

---
 src/spacegroups/parse_operator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index cde208a..b6d9d09 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -81,7 +81,11 @@ fn unsigned_fraction(input: &str) -> IResult<&str, Fraction> {
             separated_pair(
                 integer, tuple((space0, char('/'), space0)), integer
             ),
-            |(n, d)| Some(Ratio::new(n as i32, d as i32))
+            |(n, d)| if d == 0 {
+                None
+            } else {
+                Some(Ratio::new(n as i32, d as i32))
+            }
         ),
         map_opt(integer, |n| Some(Ratio::from_integer(n as i32))),
     ))(input)
-- 
2.43.0


From 2d6ce226f2ac9969ad84993650bf9ca76ef22493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 13/26] fix: reject fractions with denominator zero in CGD
 lines

---
 src/io/parse_cgd_line.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index 5d0db33..f2d10ec 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -78,7 +78,11 @@ fn field(input: &str) -> IResult<&str, Field> {
 fn fraction(input: &str) -> IResult<&str, Ratio<i32>> {
     map_opt(
         separated_pair(integer, char('/'), unsigned_integer),
-        |(n, d)| Some(Ratio::new(n, d as i32))
+        |(n, d)| if d == 0 {
+            None
+        } else {
+            Some(Ratio::new(n, d as i32))
+        }
     )(input)
 }
 
-- 
2.43.0


From f00fbf6029d03c4d96b7b202c921127cb5d10f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 14/26] fix: parse CGD names starting with nan or inf as names

---
 src/io/parse_cgd_line.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index f2d10ec..db678a6 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -5,7 +5,7 @@ use nom::bytes::complete::{take_till1, take_until1, tag};
 use nom::character::complete::{char, digit1, space0, space1};
 use nom::character::{is_space, is_alphabetic};
 use nom::multi::separated_list0;
-use nom::number::complete::double;
+use nom::number::complete::recognize_float;
 use nom::sequence::{separated_pair, preceded, delimited, pair};
 use nom::combinator::{map_opt, rest, opt};
 use nom::branch::alt;
@@ -68,7 +68,7 @@ fn key(input: &str) -> IResult<&str, &str> {
 fn field(input: &str) -> IResult<&str, Field> {
     alt((
         map_opt(fraction, |f| Some(Field::Fraction(f))),
-        map_opt(double, double_to_field()),
+        map_opt(decimal, double_to_field()),
         map_opt(quoted_string, |f| Some(Field::Name(f.to_string()))),
         map_opt(name, |f| Some(Field::Name(f.to_string()))),
     ))(input)
@@ -95,6 +95,11 @@ fn integer(input: &str) -> IResult<&str, i32> {
 }
 
 
+fn decimal(input: &str) -> IResult<&str, f64> {
+    map_opt(recognize_float, |s: &str| s.parse().ok())(input)
+}
+
+
 fn quoted_string(input: &str) -> IResult<&str, &str> {
     delimited(char('"'), take_until1("\""), char('"'))(input)
 }
-- 
2.43.0


From 3fa037add3470993ea915843112e44830b0f2844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:15 +0000
Subject: [PATCH 15/26] fix: split CGD names at blanks only, not at non-ASCII
 characters

---
 src/io/parse_cgd_line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index db678a6..4a594c5 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -3,7 +3,7 @@ use std::iter;
 use nom::{IResult, Finish};
 use nom::bytes::complete::{take_till1, take_until1, tag};
 use nom::character::complete::{char, digit1, space0, space1};
-use nom::character::{is_space, is_alphabetic};
+use nom::character::is_alphabetic;
 use nom::multi::separated_list0;
 use nom::number::complete::recognize_float;
 use nom::sequence::{separated_pair, preceded, delimited, pair};
@@ -106,7 +106,7 @@ fn quoted_string(input: &str) -> IResult<&str, &str> {
 
 
 fn name(input: &str) -> IResult<&str, &str> {
-    take_till1(|c| c == '"' || c == '#' || is_space(c as u8))(input)
+    take_till1(|c| c == '"' || c == '#' || c == ' ' || c == '\t')(input)
 }
 
 
-- 
2.43.0


From 21dc42d7398b140faf69dd8410e9b67c890d8bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 16/26] fix: warn about any text after a block type or end
 statement

---
 src/io/parse_cgd_blocks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index d84cbb2..ee99837 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -103,7 +103,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                             entry.add_error("block has no type or content");
                         }
                         current_block.lineno_end = entry.line_number;
-                        if entry.fields.len() > 1 {
+                        if !entry.fields.is_empty() {
                             entry.add_warning("text after 'end' ignored");
                         }
                         current_block.entries.push(entry);
@@ -116,7 +116,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.block_type = new_key;
                         in_block = true;
                         current_key = None;
-                        if entry.fields.len() > 1 {
+                        if !entry.fields.is_empty() {
                             entry.add_warning("text after block type ignored");
                         }
                         current_block.entries.push(entry);
-- 
2.43.0


From c959fe0d3c785e53e89fce76240a6822416fc85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 17/26] fix: forget the current key at the end of a block

---
 src/io/parse_cgd_blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index ee99837..da86c6b 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -110,6 +110,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         blocks.push(current_block);
                         current_block = Block::new();
                         in_block = false;
+                        current_key = None;
                     } else if !in_block {
                         entry.entry_type = EntryType::Begin;
                         current_block.lineno_start = entry.line_number;
-- 
2.43.0


From 1358e6c6b701ff37769fd063ce1162277c7236df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 18/26] fix: stop reading CGD lines when the input fails

---
 src/io/parse_cgd_blocks.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index da86c6b..371e99d 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -1,4 +1,4 @@
-use std::io::{BufRead, Read, BufReader};
+use std::io::{BufRead, ErrorKind, Read, BufReader};
 
 use super::parse_cgd_line::{parse_cgd_line, Field};
 
@@ -153,6 +153,10 @@ pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
     let mut lineno = 0;
 
     for line in BufReader::new(input).lines() {
+        // invalid UTF-8 concerns a single line; other errors may come forever
+        let failed = matches!(
+            &line, Err(e) if e.kind() != ErrorKind::InvalidData
+        );
         let mut current_entry = Entry::new(
             EntryType::Data, lineno, None, None, vec![]
         );
@@ -189,6 +193,10 @@ pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
 
         all_entries.push(current_entry);
         lineno += 1;
+
+        if failed {
+            break;
+        }
     }
 
     all_entries
-- 
2.43.0


From b660c627f1f4b44ad231a288e2bb64dae49a29be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 19/26] fix: write the constant one in operators

---
 src/spacegroups/parse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index e6ba02f..94036c2 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -91,7 +91,7 @@ fn write_op_row(
             } else if val.is_negative() {
                 write!(f, "-")?;
             }
-            if !val.abs().is_one() {
+            if axis.is_empty() || !val.abs().is_one() {
                 write!(f, "{}", val.abs())?;
             }
             write!(f, "{}", axis)?;
-- 
2.43.0


From 18c5491b73e6ccb49508a93fdb0631e46f145c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:24 +0000
Subject: [PATCH 20/26] fix: reject operators with the wrong number of
 coordinates

---
 src/spacegroups/parse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 94036c2..2334a8e 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -186,7 +186,7 @@ impl<CS: Clone> AffineMap<BigRational, CS> {
     pub fn from_string(s: &str) -> Option<Self> {
         let (_, (linear, shift)) = parse_operator(s).ok()?;
 
-        if linear.len() != shift.len() {
+        if linear.iter().any(|r| r.len() != shift.len()) {
             None
         } else {
             let linear: Vec<_> = linear.iter().map(promote_vec).collect();
-- 
2.43.0


From 72455f9f4f8a6090d5e8eee352dba7c51646f4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:25 +0000
Subject: [PATCH 21/26] fix: reject incomplete lines and singular transforms in
 the space group table

---
 src/spacegroups/parse_table.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 2334a8e..2d50229 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -207,7 +207,13 @@ fn promote_vec<T: Coord>(v: &Vec<Ratio<i32>>) -> Vec<T> {
 
 impl<CSIn: Clone, CSOut: Clone>  CoordinateMap<BigRational, CSIn, CSOut> {
     pub fn from_string(s: &str) -> Option<Self> {
-        Some(CoordinateMap::new(&AffineMap::from_string(s)?))
+        let forward = AffineMap::from_string(s)?;
+
+        if forward.inverse().is_some() {
+            Some(CoordinateMap::new(&forward))
+        } else {
+            None
+        }
     }
 }
 
@@ -232,7 +238,9 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
             let fields: Vec<_> = content.split_whitespace().collect();
 
             if fields[0].to_lowercase() == "alias" {
-                alias.insert(fields[1].into(), fields[2].into());
+                alias.insert(
+                    fields.get(1)?.to_string(), fields.get(2)?.to_string()
+                );
             } else if fields[0].to_lowercase() == "lookup" {
                 lookup.push(make_lookup_entry(&fields)?);
             } else {
@@ -260,8 +268,8 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
 
 
 fn make_lookup_entry(fields: &Vec<&str>) -> Option<Lookup> {
-    let name = fields[1].to_string();
-    let spec = fields[4..].join(" ");
+    let name = fields.get(1)?.to_string();
+    let spec = fields.get(4..)?.join(" ");
     let from_std = CoordinateMap::from_string(&spec)?;
 
     let system = CrystalSystem::from_string(fields[2])?;
-- 
2.43.0


From 90c0b104140625f4f8222bbf65b1558a040c2f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 22/26] fix: reject operators that name an axis beyond their
 dimension

---
 src/spacegroups/parse_operator.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index b6d9d09..b72ce3b 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -7,7 +7,7 @@ use nom::combinator::map_opt;
 use nom::multi::{many0, separated_list1};
 use nom::sequence::{separated_pair, tuple, pair, preceded, delimited};
 use num_rational::Ratio;
-use num_traits::CheckedAdd;
+use num_traits::{CheckedAdd, Zero};
 
 
 #[derive(Debug, Eq, Hash, PartialEq)]
@@ -27,7 +27,10 @@ type Operator = (Vec<Vec<Ratio<i32>>>, Vec<Ratio<i32>>);
 pub fn parse_operator(input: &str) -> Result<(&str, Operator), String>
 {
     match delimited(space0, operator, space0)(input).finish() {
-        Ok((rest, op)) => Ok((rest, convert_operator(&op))),
+        Ok((rest, op)) => match convert_operator(&op) {
+            Some(op) => Ok((rest, op)),
+            None => Err("axis exceeds number of coordinates".to_string()),
+        },
         Err(err) => Err(err.to_string()),
     }
 }
@@ -107,7 +110,7 @@ fn integer(input: &str) -> IResult<&str, u32> {
 }
 
 
-fn convert_operator(op: &[Coordinate]) -> Operator {
+fn convert_operator(op: &[Coordinate]) -> Option<Operator> {
     let mut rows = vec![];
     let mut shift = vec![];
 
@@ -117,11 +120,15 @@ fn convert_operator(op: &[Coordinate]) -> Operator {
     }
 
     let n = shift.len();
+    if rows.iter().any(|v| v.iter().skip(n).any(|x| !x.is_zero())) {
+        return None;
+    }
+
     let rows = rows.iter()
         .map(|v| v.iter().take(n).copied().collect())
         .collect();
 
-    (rows, shift)
+    Some((rows, shift))
 }
 
 
-- 
2.43.0


From 38f1da61408026fdc053164d101fc5e92e0b1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 23/26] fix: reject operators followed by other text

---
 src/spacegroups/parse_table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 2d50229..855a74c 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -184,9 +184,9 @@ impl Centering {
 
 impl<CS: Clone> AffineMap<BigRational, CS> {
     pub fn from_string(s: &str) -> Option<Self> {
-        let (_, (linear, shift)) = parse_operator(s).ok()?;
+        let (rest, (linear, shift)) = parse_operator(s).ok()?;
 
-        if linear.iter().any(|r| r.len() != shift.len()) {
+        if !rest.is_empty() || linear.iter().any(|r| r.len() != shift.len()) {
             None
         } else {
             let linear: Vec<_> = linear.iter().map(promote_vec).collect();
-- 
2.43.0


From 557b5f7ae1457282f520861d9ec4f1720cc4a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:17 +0000
Subject: [PATCH 24/26] Expose space group and CGD internals under
 cfg(rust_systre_verif)

---
 src/io/parse_cgd_blocks.rs     | 28 ++++++++++++++++++++++
 src/spacegroups/basics.rs      | 20 ++++++++++++++++
 src/spacegroups/finder.rs      | 44 ++++++++++++++++++++++++++++++++++
 src/spacegroups/parse_table.rs | 25 +++++++++++++++++++
 4 files changed, 117 insertions(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index 371e99d..98a1f9a 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -71,6 +71,34 @@ impl Block {
 }
 
 
+#[cfg(rust_systre_verif)]
+impl Entry {
+    /// Type, key, fields, notes, line number and text of the line.
+    pub fn verif_parts(&self)
+        -> (
+            &EntryType, &Option<String>, &Vec<Field>, &Vec<Note>,
+            usize, &Option<String>
+        )
+    {
+        (
+            &self.entry_type, &self.key, &self.fields, &self.notes,
+            self.line_number, &self.content
+        )
+    }
+}
+
+
+#[cfg(rust_systre_verif)]
+impl Block {
+    /// Type, first and last line number and entries of the block.
+    pub fn verif_parts(&self) -> (&str, usize, usize, &Vec<Entry>) {
+        (
+            &self.block_type, self.lineno_start, self.lineno_end, &self.entries
+        )
+    }
+}
+
+
 pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
     let mut blocks = vec![];
     let mut current_block = Block::new();
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index a4a4059..637abbe 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -89,6 +89,26 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
 }
 
 
+#[cfg(rust_systre_verif)]
+impl<CS, CSP> PrimitiveSetting<CS, CSP>
+    where
+        CS: Clone + Eq,
+        CSP: Clone + Eq + Hash
+{
+    /// Construction and read access for verification harnesses.
+    pub fn verif_new(ops_all: &Vec<AffineMap<BigRational, CS>>)
+        -> (
+            Vec<Vector<BigRational, CS>>,
+            CoordinateMap<BigRational, CS, CSP>,
+            Vec<AffineMap<BigRational, CSP>>
+        )
+    {
+        let p = Self::new(ops_all);
+        (p.cell, p.to_primitive, p.ops)
+    }
+}
+
+
 pub fn gram_matrix_configuration_space<CS: Clone>(
     ops: &Vec<AffineMap<BigRational, CS>>
 )
diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index bae7037..60076e5 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -362,6 +362,50 @@ fn as_columns<T>(vs: Vec<Vec<T>>) -> Vec<Matrix<T>>
 }
 
 
+#[cfg(rust_systre_verif)]
+pub mod verif {
+    //! Access to private items for verification harnesses.
+    use super::*;
+
+    /// Axis, order, whether orientation is preserved, whether clockwise.
+    pub fn operator_details<T>(matrix: Matrix<T>)
+        -> (Option<Vec<T>>, usize, bool, bool)
+        where
+            T: Coord, for <'a> &'a T: CoordPtr<T>,
+            Matrix<T>: LinearAlgebra<T>
+    {
+        let d = OperatorDetails::from(matrix);
+        (d.axis, d.order, d.is_orientation_preserving, d.is_clockwise)
+    }
+
+    pub fn crystal_system_and_basis_2d<T>(ops: &[Matrix<T>])
+        -> (CrystalSystem, Vec<Matrix<T>>)
+        where
+            T: Coord, for <'a> &'a T: CoordPtr<T>,
+            Matrix<T>: LinearAlgebra<T>
+    {
+        super::crystal_system_and_basis_2d(ops)
+    }
+
+    pub fn normalized_basis_2d<T>(crys: CrystalSystem, basis: &Vec<Matrix<T>>)
+        -> (Vec<Matrix<T>>, Centering)
+        where
+            T: Coord, for <'a> &'a T: CoordPtr<T>,
+            Matrix<T>: LinearAlgebra<T>
+    {
+        super::normalized_basis_2d(crys, basis)
+    }
+
+    pub fn primitive_cell<T, CS>(ops: &[AffineMap<T, CS>]) -> Vec<Matrix<T>>
+        where
+            T: Coord, for <'a> &'a T: CoordPtr<T>,
+            CS: Clone + PartialEq
+    {
+        super::primitive_cell(ops)
+    }
+}
+
+
 #[cfg(test)]
 mod tests {
     use num_bigint::BigInt;
diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 855a74c..3925e72 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -123,6 +123,31 @@ impl Display for Lookup {
 }
 
 
+#[cfg(rust_systre_verif)]
+impl TableEntry {
+    /// Name, canonical name, transform and operators.
+    pub fn verif_parts(&self)
+        -> (
+            &str, &str, &SettingCoordinateMap,
+            &Vec<AffineMap<BigRational, Setting>>
+        )
+    {
+        (&self.name, &self.canonical_name, &self.transform, &self.operators)
+    }
+}
+
+
+#[cfg(rust_systre_verif)]
+impl Lookup {
+    /// Name, crystal system, centering and transform.
+    pub fn verif_parts(&self)
+        -> (&str, &CrystalSystem, &Centering, &SettingCoordinateMap)
+    {
+        (&self.name, &self.system, &self.centering, &self.from_std)
+    }
+}
+
+
 pub struct Tables {
     pub settings: HashMap<String, TableEntry>,
     pub alias: HashMap<String, String>,
-- 
2.43.0


From dacea95f26160000cd9208e07f7bd7480168845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:33 +0000
Subject: [PATCH 25/26] fix: keep lines found after the last CGD block

---
 src/io/parse_cgd_blocks.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index 98a1f9a..2aac2dd 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -170,6 +170,12 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
         current_block.lineno_end = last_entry.line_number;
         last_entry.add_error("final block is missing an 'end' statement");
         blocks.push(current_block);
+    } else if let Some(last_entry) = current_block.entries.last() {
+        // keep data and errors found after the last block
+        current_block.lineno_end = last_entry.line_number;
+        current_block.lineno_start = current_block.entries[0].line_number;
+        current_block.block_type = "--void--".to_string();
+        blocks.push(current_block);
     }
 
     blocks
-- 
2.43.0


From f6a352783222490a78d27f0ffadfc1f1ad7890d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:43 +0000
Subject: [PATCH 26/26] fix: ignore integer parts in rational_lattice_basis
 instead of overflowing

---
 src/spacegroups/lattices.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/lattices.rs b/src/spacegroups/lattices.rs
index 5b75798..b25aaaf 100644
--- a/src/spacegroups/lattices.rs
+++ b/src/spacegroups/lattices.rs
@@ -238,7 +238,10 @@ pub fn rational_lattice_basis(vectors: &Vec<Vec<BigRational>>)
     }
 
     for d in vectors {
-        let d: Vec<_> = d.iter().map(|x| r_to_i32(&(x * &f)).unwrap()).collect();
+        // the unit vectors are in the lattice, so only the fractional parts matter
+        let d: Vec<_> = d.iter()
+            .map(|x| r_to_i32(&((x - x.floor()) * &f)).unwrap())
+            .collect();
         extend_basis(&d, &mut basis);
     }
 
-- 
2.43.0

