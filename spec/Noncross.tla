------------------------------ MODULE Noncross ------------------------------
(* Noncrossing partitions of {0..n-1}.  A partition is kept as the          *)
(* permutation whose cycles run downwards through each block (the largest   *)
(* element of a block is the image of its smallest), which is also the      *)
(* permutation of the corresponding divisor of delta = s(n-2)...s(0).       *)
EXTENDS Perms

DeltaP(n) == TLCEval([i \in 1..n |-> (i + n - 2) % n])        \* 0 -> n-1, i -> i-1

(* Blocks are given as a sequence of sequences (or sets) of points.         *)
SetMax(S) == CHOOSE m \in S : \A x \in S : x <= m
SetMin(S) == CHOOSE m \in S : \A x \in S : m <= x
PermOfPartition(n, P) ==
    TLCEval([i \in 1..n |->
        LET B == UNION {b \in P : (i-1) \in b}
            lower == {x \in B : x < i-1}
        IN IF B = {} THEN i-1 ELSE IF lower = {} THEN SetMax(B) ELSE SetMax(lower)])
PermOfBlocks(n, bs) == PermOfPartition(n, {SeqRange(bs[i]) : i \in 1..Len(bs)})
PartitionOf(w) == {OrbitSet(w, x) : x \in 0..(Len(w)-1)}

IsPartition(n, P) == /\ UNION P = 0..(n-1)
                     /\ \A a, b \in P : a = b \/ a \cap b = {}
                     /\ {} \notin P
Crosses(A, B) == \E a, c \in A, b, d \in B : a < b /\ b < c /\ c < d
IsNoncrossing(P) == \A A, B \in P : A = B \/ (~Crosses(A, B) /\ ~Crosses(B, A))
(* A permutation is a dual simple exactly when its cycles are descending    *)
(* and its orbits do not cross.                                             *)
IsDualSimple(w) == IsPerm(w) /\ LET P == PartitionOf(w) IN IsNoncrossing(P) /\ PermOfPartition(Len(w), P) = w

(* Common refinement, which is the greatest common divisor of the simples.  *)
MeetP(x, y) == LET n == Len(x) IN
    PermOfPartition(n, TLCEval({OrbitSet(x, i) \cap OrbitSet(y, i) : i \in 0..(n-1)}))

RightComp(x) == PMul(PInv(x), DeltaP(Len(x)))          \* x . right complement = delta
LeftComp(x)  == PMul(DeltaP(Len(x)), PInv(x))          \* left complement . x = delta

(* Band generator a_{st} = s(t-1)..s(s+1) s(s) s(s+1)^-1..s(t-1)^-1, s < t; *)
(* letters are <<i, e>> pairs.                                              *)
BandWord(s, t) ==
    IF s = t THEN <<>> ELSE
    LET lo == IF s < t THEN s ELSE t
        hi == IF s < t THEN t ELSE s
        k == hi - lo - 1
    IN [i \in 1..k |-> <<hi - i, 1>>] \o <<<<lo, 1>>>> \o [i \in 1..k |-> <<lo + i, -1>>]
RECURSIVE BlockWord(_, _)
BlockWord(c, i) == IF i < 1 THEN <<>> ELSE BandWord(c[i], c[i+1]) \o BlockWord(c, i-1)
RECURSIVE PartWord(_, _)
PartWord(bs, i) == IF i > Len(bs) THEN <<>> ELSE
    LET c == SortSet(bs[i]) IN BlockWord(c, Len(c)-1) \o PartWord(bs, i+1)
RECURSIVE SeqOfSets(_)
SeqOfSets(P) == IF P = {} THEN <<>> ELSE
    LET b == CHOOSE b \in P : \A c \in P : SetMin(b) <= SetMin(c) IN <<b>> \o SeqOfSets(P \ {b})
DualSimpleWord(w) == PartWord(SeqOfSets(PartitionOf(w)), 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Binom(n-1, k-1) + Binom(n-1, k)
Catalan(n) == Binom(2*n, n) \div (n+1)
NCPerms(n) == {w \in AllPerms(n) : IsDualSimple(w)}
=============================================================================
