From 4121a8d044b751fd68b5dbdf4b32ab63a87870ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 01/33] fix: Matrix.row checks the row index against the number
 of rows

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index e799623..18910fb 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -117,7 +117,7 @@ class Matrix:
         """
         Return a row of the matrix as a row vector.
         """
-        if not 0 <= row < self.ncols:
+        if not 0 <= row < self.nrows:
             raise IndexError(f"Row {row} is out of bounds for a {self.nrows} x {self.ncols} matrix.")
 
         return Matrix(1, self.ncols, tuple(self[row, j] for j in range(self.ncols)))
-- 
2.43.0


From de409a10726ff473e2601020b16d8019153862cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 02/33] fix: Matrix.is_symmetric compares all entries, not just
 the diagonal

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 18910fb..6e7c435 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -231,7 +231,7 @@ class Matrix:
         return self.nrows == self.ncols
 
     def is_symmetric(self):
-        return all(self[i, j] == self[j, i] for i, j in zip(range(self.nrows), range(self.ncols)))
+        return self.is_square() and all(self[i, j] == self[j, i] for i, j in self.indices())
 
     def __repr__(self):
         """
-- 
2.43.0


From c41b523a0399173a0945d7e3133994da027ac2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 03/33] fix: subtracting a non-matrix from a Matrix is a
 TypeError, not None

---
 peyl/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 6e7c435..5e9ada4 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -215,6 +215,8 @@ class Matrix:
                 raise ValueError("Cannot subtract incompatibly sized matrices.")
             return Matrix(self.nrows, self.ncols, tuple(a - b for a, b in zip(self.data, other.data)))
 
+        return NotImplemented
+
     def trace(self):
         """
         The trace of a square matrix is the sum of the diagonal entries.
-- 
2.43.0


From f73654f6bee9ce52d44a131a4e86adee3595eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 04/33] fix: SymmetricGroup.from_cycle accepts cycles shorter
 than n

---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 39be001..5c21124 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -368,7 +368,7 @@ class SymmetricGroup:
         assert max(collections.Counter(cycle).values()) <= 1
         word = list(range(self.n))
         for i in range(len(cycle)):
-            word[cycle[i]] = cycle[(i+1)%self.n]
+            word[cycle[i]] = cycle[(i+1) % len(cycle)]
 
         return Permutation(tuple(word))
 
-- 
2.43.0


From c95102af2cdeea9ce276c8ddab965fce16ebfa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 05/33] fix: SymmetricGroup.from_cycles starts from the
 identity permutation

---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 5c21124..828db54 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -375,7 +375,7 @@ class SymmetricGroup:
 
     def from_cycles(self, cycles: Sequence[Sequence[int]]):
         """Create a permutation from a list of cycles (not necessarily disjoint)."""
-        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id)
+        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id())
 
 
     def elements(self) -> Iterable[Permutation]:
-- 
2.43.0


From f745090bad3968ad18eba5b25df4d86f6d280f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 06/33] fix: Permutation rejects words which are not
 permutations

---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 828db54..3801604 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -387,7 +387,7 @@ class SymmetricGroup:
 class Permutation:
     word: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert is_permutation(self.word)
 
     def group(self):
-- 
2.43.0


From 383f6a1fd48a4bb40306d6fed2e146f5f8f89ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 07/33] fix: SymmetricGroup rejects negative n

---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 3801604..f068f19 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -339,7 +339,7 @@ def is_parallel_descending_cycles(perm: Sequence[int]) -> bool:
 class SymmetricGroup:
     n: int
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert self.n >= 0
 
     @functools.cache
-- 
2.43.0


From 9d8869c83469917b76bf58ff8672d1551a163acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 08/33] fix: NPar rejects data which is not a noncrossing
 partition

---
 peyl/noncrossing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/noncrossing.py b/peyl/noncrossing.py
index 91d2e8f..18fc7f2 100644
--- a/peyl/noncrossing.py
+++ b/peyl/noncrossing.py
@@ -97,7 +97,7 @@ class NPar:
     n: int
     inv: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         """Check that inv is really an involution of the right kind."""
         assert len(self.inv) == 2*self.n
         assert tl.is_crossingless_matching(self.inv)
-- 
2.43.0


From bd93f8023569d9ca470434cc9f2053b71346b9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 09/33] fix: BraidGroup.all_of_garside_length honours its power
 argument

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 4e5b6ba..d557ce7 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -782,7 +782,7 @@ class BraidGroup:
 
     def all_of_garside_length(self, length: int, power: int = 0) -> Iterable[GNF]:
         """Use GNF.all_of_length() or DGNF.all_of_length() instead."""
-        return GNF.all_of_length(n=self.n, length=length)
+        return GNF.all_of_length(n=self.n, length=length, power=power)
 
     def count_all_of_garside_length(self, length: int):
         """Use GNF.count_all_of_length() or DGNF.count_all_of_length() instead."""
-- 
2.43.0


From 201911b6fb3db781a71c03cc63b7e8ea221aa992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 10/33] fix: suffixes of a normal form do not repeat its
 Garside power

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index d557ce7..ee9236e 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -492,7 +492,7 @@ class NFBase(Generic[T]):
         """Return all x such that self * x has no cancellation, and x has the given length."""
         table = self._nf_table(self.n)
         return (
-            self.__class__(self.n, self.power, suffix)
+            self.__class__(self.n, 0, suffix)
             for suffix in table.normal_forms(length=length, following=self.factors[-1] if self.factors else None)
         )
 
-- 
2.43.0


From 1230b3b39e8fa3dc10f50e58f638fcf598766491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 11/33] fix: projlen of the zero matrix is zero

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 3483d90..8cf9cde 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -276,7 +276,7 @@ def projlen(A: npt.NDArray) -> npt.NDArray:
     nonzeros = np.any(A, axis=(-3, -2))
     starts = np.argmax(nonzeros, axis=-1)
     ends = nonzeros.shape[-1] - np.argmax(nonzeros[..., ::-1], axis=-1)
-    return ends - starts
+    return (ends - starts) * np.any(nonzeros, axis=-1)
 
 def proj_starts_ends(A: npt.NDArray) -> Tuple[npt.NDArray, npt.NDArray]:
     """
-- 
2.43.0


From de909328819cd1ca849a9a408f59865dc9c75e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 12/33] fix: from_matrix honours dtype for integer matrices

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 8cf9cde..32bea74 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -160,7 +160,7 @@ def from_matrix(mat: Matrix, proj: bool = False, dtype: npt.DTypeLike = np.int64
     If proj is true, then the matrix will be multiplied by a power of v, making it a polynomial matrix first.
     """
     if all(isinstance(x, int) for x in mat.data):
-        return np.array(mat.rows())[..., None]
+        return np.array(mat.rows(), dtype=dtype)[..., None]
 
     if all(isinstance(x, LPoly) for x in mat.data):
         if all(x.is_zero() for x in mat.data):
-- 
2.43.0


From f2e19432eb77931ba3de639124b3dce63010b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 13/33] fix: polymat generators are taken projectively, so that
 inverses can be packed

---
 peyl/jonesrep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 24cd2bc..d4527e5 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -116,8 +116,8 @@ class RepBase:
         are the images of their inverses.
         """
         gens, invs = self.artin_gens_invs()
-        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in gens])
-        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in invs])
+        matgens = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in gens])
+        matinvs = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in invs])
         if self.p != 0:
             matgens %= self.p
             matinvs %= self.p
-- 
2.43.0


From 21676d1c444d2dfc0979d62641a3fdbe8dc022c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 14/33] fix: powers of the Garside element are evaluated modulo
 p

---
 peyl/jonesrep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index d4527e5..5016579 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -136,8 +136,8 @@ class RepBase:
         """
         table = cls._nf_table(self.n)
         assert 0 <= power < table.tau_order, "Only reduced powers should be passed to this function."
-        mat = self.evaluate_artin_word(table.artin_word[table.D])
-        return polymat.projectivise(polymat.from_matrix(mat ** power, proj=True))
+        mat = self.evaluate_artin_word(table.artin_word[table.D] * power)
+        return polymat.projectivise(polymat.from_matrix(mat, proj=True))
 
     def polymat_evaluate_artin_word(self, word: Sequence[tuple[int, int]]):
         """Evaluate a word in the Artin generators in this representation, as a polymat."""
-- 
2.43.0


From bd37f971a6cbd89d13434003744249df07f4127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 15/33] fix: evaluating many sequences of length zero gives one
 image each

---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 5016579..0d3ceaa 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -204,7 +204,7 @@ class RepBase:
         assert all(0 <= x < order for seq in sequences for x in seq)
 
         # Evaluate the braids.
-        result = polymat.pack([self._polymat_braid_factor(cls, table.id)])
+        result = polymat.pack([self._polymat_braid_factor(cls, table.id)] * len(sequences))
         for i in range(length):
             images = polymat.pack([self._polymat_braid_factor(cls, seq[i]) for seq in sequences])
             result = self.polymat_mul(result, images)
-- 
2.43.0


From b2e5e6899d8a70381492bcc085a1175ab3628cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 16/33] fix: LKBRep returns the inverses of the generators

---
 peyl/jonesrep.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 0d3ceaa..16a6a9a 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -327,4 +327,13 @@ class LKBRep(RepBase):
             ])
             gens += [mat]
 
-        return gens, gens
+        # Each generator has eigenvalues 1, -q and tq^2, so its inverse can be read off its minimal polynomial
+        # x^3 - e1 x^2 + e2 x - e3 = 0, as x^-1 = (x^2 - e1 x + e2) / e3.
+        e1, e2, e3 = 1 - q + t*q**2, -q + t*q**2 - t*q**3, -t*q**3
+        scalar = functools.partial(Matrix.scalar, self.dimension())
+        invs = [
+            ((gen * (gen - scalar(e1)) - scalar(-e2)) * scalar(e3**-1)).map(LPoly.coerce)
+            for gen in gens
+        ]
+
+        return gens, invs
-- 
2.43.0


From 212056de6ec1255afdf8ab3bb466a032da4a8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 17/33] fix: JonesSummand.dimension for one-rowed partitions

---
 peyl/braidsearch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 6d9df14..2ca70c0 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -85,6 +85,10 @@ class JonesSummand:
 
     def dimension(self) -> int:
         """The dimension of this representation."""
+        # math.comb errors if it gets a negative second argument.
+        if self.r == 0:
+            return 1
+
         return math.comb(self.n, self.r) - math.comb(self.n, self.r - 1)
 
     @functools.cache
-- 
2.43.0


From 110ca210f4336758d909a0ad546e86a8bda64c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 18/33] fix: Tracker.valiate_buckets evaluates with the
 representation of the tracker

---
 peyl/braidsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 2ca70c0..5b79e9e 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -412,7 +412,7 @@ class Tracker:
         """Ensure that the braids in each bucket evaluate to the matrices stored there."""
         for bucket in self.buckets:
             braids, images = self.bucket_braids_images(bucket)
-            actual = evaluate_braids_of_same_length(BraidGroup(braids[0].n), braids, p=self.p)
+            actual = evaluate_braids_of_same_length(self.rep, braids)
             if not np.all(images == actual):
                 print(f"A braid image is wrong in bucket {bucket}")
                 for i in range(len(braids)):
-- 
2.43.0


From bc052e10be291ef9aa5d612c59a93c5d234aa5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 19/33] fix: TLMor.flip honours twist_v

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 5981422..53ded39 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -450,7 +450,7 @@ class TLMor:
         """Apply the upside-down flip to the diagrams. If twist_v is True, also map v -> v^-1."""
         vinv = LPoly(-1, (1,))
         return TLMor(self.bot, self.top, {
-            diag.flip(): coeff.evaluate(vinv) for diag, coeff in self.terms.items()
+            diag.flip(): coeff.evaluate(vinv) if twist_v else coeff for diag, coeff in self.terms.items()
         })
 
     def __neg__(self):
-- 
2.43.0


From edc11ccbd8073b302772f9678468d48da96178f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 20/33] fix: TLExtDiag composes diagrams in the documented
 order

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 53ded39..af8d216 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -306,7 +306,7 @@ class TLExtDiag:
             if self.bot != other.top:
                 raise ValueError("Trying to compose incompatible TLDiags.")
 
-            seq, bubbles = compose(other.seq, self.seq, self.bot)
+            seq, bubbles = compose(self.seq, other.seq, self.bot)
             return TLExtDiag(self.top, other.bot, seq, self.bubbles + other.bubbles + bubbles)
 
         return NotImplemented
-- 
2.43.0


From 81cdc20cb92b425782718d2b36b81a4139a12adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 21/33] fix: JonesRep includes the last cell module

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index af8d216..5d6af3f 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -550,7 +550,7 @@ class JonesRep:
         assert n >= 0
 
         self.n = n
-        self.cells = [TLCell(n, r) for r in range(n//2)]
+        self.cells = [TLCell(n, r) for r in range(n//2 + 1)]
 
 
 
-- 
2.43.0


From cb4e8daba1e3f551d9b5dc8b190b00b62afd2792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 22/33] fix: Poly prints the constant term

---
 peyl/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/poly.py b/peyl/poly.py
index 7346681..753e6bf 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -71,7 +71,7 @@ class Poly:
 
             sign = ' + ' if (c > 0 and parts) else ' - ' if (c < 0 and parts) else '' if c > 0 else '-'
             term = '' if i == 0 else 'x' if i == 1 else f'x^{i}'
-            coeff = '1' if (i == 0 and term == '') else '' if abs(c) == 1 else f'{abs(c)}'
+            coeff = f'{abs(c)}' if i == 0 else '' if abs(c) == 1 else f'{abs(c)}'
             parts += [sign + coeff + term]
 
         return f"Poly('{''.join(parts)}')"
-- 
2.43.0


From 60333881e93c340481d69a2ea8c482733a4a9070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 23/33] fix: A-Chao sampling accepts items of weight zero

---
 peyl/bucketing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 61aeec5..77cfd57 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -330,7 +330,7 @@ class Tracker:
                     if not bucket.is_full():
                         bucket.append_braid(braid, image, weight)
                     else:
-                        if self.rand.random() <= weight / bucket.reservoir_weight:
+                        if weight > 0 and self.rand.random() <= weight / bucket.reservoir_weight:
                             replace = self.rand.randrange(0, bucket.capacity)
                             bucket.replace_braid(replace, braid, image, weight)
 
-- 
2.43.0


From fff73e25cea3fa5dfffae9754ed9f68613202384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 24/33] fix: Tracker.nf_descendants of braids of length zero

---
 peyl/bucketing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 77cfd57..2e1917d 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -360,21 +360,22 @@ class Tracker:
 
         # Let's sort this bucket first, so that elements ending in the same normal form factor appear next to each other.
         bucket_braids, bucket_images = self.buckets[tag].braids_images()
-        last_factors = np.array([braid.factors[-1] for braid in bucket_braids])
+        # (Braids of length zero are followed by everything, and have no last factor).
+        last_factors = np.array([braid.factors[-1] if braid.factors else -1 for braid in bucket_braids])
         sorted_indices = np.argsort(last_factors)
 
         sorted_braids = [bucket_braids[i] for i in sorted_indices]
         sorted_images = bucket_images[sorted_indices]
 
         # Now we can iterate through each group ending in the same factor.
-        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: sorted_braids[i].factors[-1]):
+        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: last_factors[sorted_indices[i]]):
             index_list = list(indices)
             chunk = slice(min(index_list), max(index_list)+1)
             braids = sorted_braids[chunk]
             left = sorted_images[chunk]
 
             # Cache suffixes and their images depending on the last factor.
-            last_factor = braids[0].canonical_factor(-1)
+            last_factor = braids[0].canonical_factor(-1) if braids[0].factors else type(braids[0])
             if (length, last_factor) not in self.suffix_cache:
                 suffixes = list(braids[0].nf_suffixes(length))
                 rights = self.rep.polymat_evaluate_braids_of_same_length(suffixes)
-- 
2.43.0


From 64fabf0cb2baa69b98cc1b7acd2343154e87ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 25/33] fix: the generators of B_2, which are Garside elements,
 can be constructed

---
 peyl/braid.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index ee9236e..2a3241b 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -367,7 +367,7 @@ class NFBase(Generic[T]):
     def artin_gens(cls, n: int):
         """Return a list of the n-1 Artin generators."""
 
-        return [cls(n, 0, (f,)) for f in cls._nf_table(n).artin_gens]
+        return [cls.from_artin_word(n, [(i, 1)]) for i in range(n - 1)]
 
     def canonical_factors(self) -> tuple[T, ...]:
         """
@@ -647,7 +647,7 @@ class DGNF(NFBase[NPar]):
         id = DGNF.identity(n)
         table = DGNF._nf_table(n)
         return {
-            (i, j): id if i == j else DGNF(n, 0, (table.bkl_gens[(min(i, j), max(i, j))],))
+            (i, j): id if i == j else DGNF.from_npar(table.divs[table.bkl_gens[(min(i, j), max(i, j))]])
             for i in range(n) for j in range(n)
         }
 
@@ -726,8 +726,7 @@ class BraidGroup:
     @functools.cache
     def gens(self) -> tuple[GNF, ...]:
         """Return the Artin generators of the braid group, as GNFs."""
-        table = PermTable.create(self.n)
-        return tuple(GNF(self.n, 0, (table.artin_gens[i],)) for i in range(self.n - 1))
+        return tuple(GNF.artin_gens(self.n))
 
     @functools.cache
     def bkl_gens(self) -> dict[tuple[int, int], DGNF]:
@@ -735,12 +734,7 @@ class BraidGroup:
         Return a dictionary of the dual generators. Both (i < j) and (i > j) appear,
         although they are the same element.
         """
-        table = NParTable.create(self.n)
-        return {
-            **{gen: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
-            **{gen[::-1]: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
-            **{(i, i): DGNF.identity(self.n) for i in range(self.n)},
-        }
+        return dict(DGNF.bkl_gens(self.n))
 
     @functools.cache
     def invs(self):
-- 
2.43.0


From 2a54aa7abc249394f498b715ac52e4e6d6cf23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 26/33] fix: Tracker sorts braids into buckets by its bucket
 keys

---
 peyl/braidsearch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 5b79e9e..6951efa 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -436,14 +436,13 @@ class Tracker:
         keep = self.criterion(stats)
         indices = [i for i in range(len(keep)) if keep[i]]
 
-        lengths = [braid.garside_length() for braid in braids]
-        projlens = polymat.projlen(images)
+        tags = list(zip(*(stats[key].tolist() for key in self.bucket_keys)))
         self.minimise(images)
 
         kept = []
         for i in indices:
             braid, image = braids[i], images[i]
-            bucket = (lengths[i], projlens[i])
+            bucket = tags[i]
 
             if bucket not in self.buckets:
                 self.buckets |= {bucket}
-- 
2.43.0


From 33586df7622fca9eaa5396cc61ee2b259186c22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 27/33] fix: the product of two zero-width (trimmed zero)
 polynomial matrices is zero

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 32bea74..fb0da1b 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -65,7 +65,7 @@ def mul(A: npt.NDArray, B: npt.NDArray, quotdeg: int = None):
     assert J == J2, f"The matrix dimensions of A and B must be compatible, was given {J} and {J2}."
     assert quotdeg is None or quotdeg >= 0, f"quotdeg={quotdeg} is illegal."
 
-    P = D + E - 1 if quotdeg is None else quotdeg
+    P = max(D + E - 1, 0) if quotdeg is None else quotdeg
     prefix = np.broadcast_shapes(alpha, beta)
 
     # This approach seems to be a bit faster than making a large shape of zeros of the right size
-- 
2.43.0


From 47361916cd6ab070fc4ecadeb8138a8ddbcae7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 28/33] fix: projlen and efflen of a zero-width (trimmed zero)
 polynomial matrix are 0

---
 peyl/polymat.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index fb0da1b..512ef93 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -261,6 +261,9 @@ def rhogap(A: npt.NDArray):
 
 def efflen(A: npt.NDArray):
     """degmax - valmin, or zero if A == 0."""
+    if A.shape[-1] == 0:
+        return np.zeros(A.shape[:-3], dtype=int)
+
     return np.where(
         (A == 0).all(axis=(-3, -2, -1)),
         0,
@@ -273,6 +276,9 @@ def projlen(A: npt.NDArray) -> npt.NDArray:
     Name inspired since ignoring powers of v^d is a bit like projectivising.
     (α, I, J, D) -> (α)
     """
+    if A.shape[-1] == 0:
+        return np.zeros(A.shape[:-3], dtype=int)
+
     nonzeros = np.any(A, axis=(-3, -2))
     starts = np.argmax(nonzeros, axis=-1)
     ends = nonzeros.shape[-1] - np.argmax(nonzeros[..., ::-1], axis=-1)
-- 
2.43.0


From ee2c980199578b42c8a4c77451d9c4635eb90ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 29/33] fix: NPar.from_components accepts components given by
 an iterator

---
 peyl/noncrossing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/peyl/noncrossing.py b/peyl/noncrossing.py
index 18fc7f2..c98eefb 100644
--- a/peyl/noncrossing.py
+++ b/peyl/noncrossing.py
@@ -137,6 +137,9 @@ class NPar:
         >>> NPar.coarsest(4) == NPar.from_components(4, [[0, 1, 3, 2]])
         True
         """
+        # Keep the components: they may come from an iterator, and are gone through several times.
+        components = [sorted(component) for component in components]
+
         if not are_pairwise_disjoint(components):
             raise ValueError(f"The components {components} do not form a partition.")
 
@@ -144,7 +147,7 @@ class NPar:
             raise ValueError(f"Not all component elements of {components} are in the range [0, {n})")
 
         inv = list(NPar.finest(n).inv)
-        for comp in [sorted(comp) for comp in components]:
+        for comp in components:
             for i in range(len(comp)):
                 a, b = comp[i], comp[(i+1) % len(comp)]
                 inv[2*a + 1] = 2*b
-- 
2.43.0


From 11f687a05f5bb2965bf1cbd83999d6519b027f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 30/33] fix: Tracker.substrings tries every substring of length
 2 or more

---
 peyl/braidsearch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 6951efa..a63f5ea 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -511,11 +511,11 @@ class Tracker:
     def substrings(self, bucket: Tuple):
         """Try all substrings of a bucket of length 2 or more."""
         assert bucket in self.buckets
-        braids = self.bucket_braids[bucket]
+        braids = list(self.bucket_braids[bucket])
         length = braids[0].garside_length()
-        for i in range(1, length - 1):
+        for i in range(0, length - 1):
             images = evaluate_prefixes_of_same_length(self.rep, [braid.substring(i, length) for braid in braids])
-            for j in range(i+2, length - 1):
+            for j in range(i+2, length + 1):
                 self.add_braids_images([braid.substring(i, j) for braid in braids], images[j-i])
 
     def bootstrap_exhaustive(self, upto_length: int):
-- 
2.43.0


From 59c2e2888e781662b0e8d0ef3cdd89070dcb7ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 31/33] fix: extending a bucket of braids that have no suffixes
 adds nothing

---
 peyl/bucketing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 2e1917d..0b04717 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -378,6 +378,8 @@ class Tracker:
             last_factor = braids[0].canonical_factor(-1) if braids[0].factors else type(braids[0])
             if (length, last_factor) not in self.suffix_cache:
                 suffixes = list(braids[0].nf_suffixes(length))
+                if not suffixes:
+                    continue
                 rights = self.rep.polymat_evaluate_braids_of_same_length(suffixes)
                 self.suffix_cache[length, last_factor] = (suffixes, rights)
             else:
-- 
2.43.0


From 44a6494eb5a57c8a6c0fea7c3a5c45278f99eb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 32/33] fix: convert_braid refuses texts which do not denote a
 braid

---
 peyl/braid.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 2a3241b..f6cbc42 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -794,14 +794,30 @@ def adapt_braid(braid: NFBase) -> str:
     return f'{braid.__class__.__name__}{dataclasses.astuple(braid)}'
 
 
+def _read_braid(cls: type[NFBase], text: str) -> NFBase:
+    """
+    Read the arguments "(n, power, factors)" of a normal form, which must be those of a braid.
+    """
+    n, power, factors = ast.literal_eval(text)
+    if (
+        text.startswith('(')
+        and type(n) is type(power) is int and n >= 1
+        and type(factors) is tuple
+        and all(type(factor) is int and 0 <= factor < cls._nf_table(n).order for factor in factors)
+    ):
+        return cls(n, power, factors)
+
+    raise ValueError(f"{text!r} is not a braid.")
+
+
 def convert_braid(data: bytes) -> NFBase:
     """
     Read a braid out of SQLite into an object.
     """
     if data.startswith(b'GNF'):
-        return GNF(*ast.literal_eval(data[3:].decode('utf-8')))
+        return _read_braid(GNF, data[3:].decode('utf-8'))
     if data.startswith(b'DGNF'):
-        return DGNF(*ast.literal_eval(data[4:].decode('utf-8')))
+        return _read_braid(DGNF, data[4:].decode('utf-8'))
     raise ValueError(f"Could not convert {data!r} to a braid.")
 
 
-- 
2.43.0


From 05f39b682924c84ef34ddb7932210993b2ca41b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:47 +0000
Subject: [PATCH 33/33] fix: validating buckets compares entries of different
 degrees

A wrong entry wider or narrower than its bucket made valiate_buckets raise, or blame another entry through broadcasting (images of degree 0).
---
 peyl/braidsearch.py | 3 +++
 peyl/bucketing.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index a63f5ea..bf46d4a 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -413,6 +413,9 @@ class Tracker:
         for bucket in self.buckets:
             braids, images = self.bucket_braids_images(bucket)
             actual = evaluate_braids_of_same_length(self.rep, braids)
+            # A wrong entry need not have the degree of the others in its bucket.
+            D = max(images.shape[-1], actual.shape[-1])
+            images, actual = polymat.zeropad(images, D), polymat.zeropad(actual, D)
             if not np.all(images == actual):
                 print(f"A braid image is wrong in bucket {bucket}")
                 for i in range(len(braids)):
diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 0b04717..8ccdd5f 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -269,6 +269,9 @@ class Tracker:
         for tag, bucket in self.buckets.items():
             braids, images = bucket.braids_images()
             actual = self.rep.polymat_evaluate_braids_of_same_length(braids)
+            # A wrong entry need not have the degree of the others in its bucket.
+            D = max(images.shape[-1], actual.shape[-1])
+            images, actual = polymat.zeropad(images, D), polymat.zeropad(actual, D)
             if not np.all(images == actual):
                 print(f"A braid image is wrong in bucket {tag}")
                 for i in range(len(braids)):
-- 
2.43.0

