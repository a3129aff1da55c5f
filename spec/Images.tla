------------------------------ MODULE Images ------------------------------
(* Images of normal forms in the two-rowed representations up to powers of  *)
(* v, and what is known about a braid: [m image, len length, span projective *)
(* length, nz nonzero coefficients].  Tables: fol (what may follow a factor, *)
(* by kind), fw (words of factors, by kind), tab (action of the generators). *)
EXTENDS LinkState, Enumerate
NFOf(o, m) == TLCEval([k |-> o.k, pow |-> o.pow, fs |-> TLCEval([i \in 1..Len(o.fs) |-> IF o.k = "G" THEN o.fs[i] ELSE PermOfBlocks(m, o.fs[i])])])
BasisOf(h) == TLCEval([i \in 1..Len(h.basis) |-> FromDiag(h.n, h.n - 2*h.r, h.basis[i])])
BasisGood(h) == /\ \A i \in 1..Len(h.basis) : IsDiag(h.n, h.n - 2*h.r, h.basis[i]) /\ IsLink(h.n, h.r, BasisOf(h)[i])
                /\ Cardinality({h.basis[i] : i \in 1..Len(h.basis)}) = RepDim(h.n, h.r) /\ Len(h.basis) = RepDim(h.n, h.r)
(* Matrices up to a power of v.                                             *)
At(M, d, k) == M[(k \div d)+1][(k % d)+1]
RECURSIVE LeastLo(_, _, _), TopHi(_, _, _)
(* Over the nonzero entries from k on; <<>> when there are none.            *)
LeastLo(M, d, k) == IF k >= d*d THEN <<>> ELSE LET rest == TLCEval(LeastLo(M, d, k+1)) e == At(M, d, k) IN
    IF e.c = <<>> \/ (rest # <<>> /\ rest[1] <= e.lo) THEN rest ELSE <<e.lo>>
TopHi(M, d, k) == IF k >= d*d THEN <<>> ELSE LET rest == TLCEval(TopHi(M, d, k+1)) e == At(M, d, k) IN
    IF e.c = <<>> \/ (rest # <<>> /\ rest[1] >= LHi(e)) THEN rest ELSE <<LHi(e)>>
Norm(M, d) == LET m == TLCEval(LeastLo(M, d, 0)) IN IF m \in {<<>>, <<0>>} THEN M ELSE
    TLCEval([j \in 1..d |-> TLCEval([i \in 1..d |-> LShift(M[j][i], -m[1])])])
RECURSIVE NZ(_, _), NZSum(_, _, _)
NZ(c, i) == IF i > Len(c) THEN 0 ELSE (IF c[i] = 0 THEN 0 ELSE 1) + NZ(c, i+1)
NZSum(M, d, k) == IF k >= d*d THEN 0 ELSE NZ(M[(k \div d)+1][(k % d)+1].c, 1) + NZSum(M, d, k+1)
(* The full twist acts by a scalar, so only the power of D modulo its order *)
(* matters up to powers of v (checked in MC_Rep).                           *)
Fold(x, m) == [x EXCEPT !.pow = @ % TauOrder(x.k, m)]
InfoM(M0, len, d) ==
    LET M == TLCEval(Norm(M0, d))
        hi == TLCEval(TopHi(M, d, 0))
    IN TLCEval([m |-> M, len |-> len, span |-> IF hi = <<>> THEN 0 ELSE 1 + hi[1], nz |-> NZSum(M, d, 0)])
InfoNF(x, m, T, d, q) == LET y == Fold(x, m) IN InfoM(WordMat(T, d, q, NFWord(y.k, m, [pow |-> y.pow, fs |-> y.fs])), Len(x.fs), d)
FollowTables(kinds, m) == TLCEval([k \in kinds |-> FollowTable(k, m)])
FactorWords(fol) == TLCEval([k \in DOMAIN fol |-> TLCEval([f \in DOMAIN fol[k] |-> SimpleWord(k, f)])])
After(fol, k, last) == IF last = <<>> THEN DOMAIN fol[k] ELSE fol[k][last]
(* Trees of normal forms.  Leaves(I): the extensions by one factor of all   *)
(* in I, a table of information; Levels: by 1, ..., len factors.            *)
Longer(x, f) == [k |-> x.k, pow |-> x.pow, fs |-> Append(x.fs, f)]
Short(x) == [k |-> x.k, pow |-> x.pow, fs |-> SubSeq(x.fs, 1, Len(x.fs)-1)]
InfoMore(fw, tab, d, p, i, k, f) == InfoM(MulWord(tab, d, p, i.m, fw[k][f], 1), i.len + 1, d)
Leaves(fol, fw, tab, d, p, I) == LET V == UNION {{Longer(x, f) : f \in After(fol, x.k, LastOf(x))} : x \in DOMAIN I} IN
    TLCEval([y \in V |-> InfoMore(fw, tab, d, p, I[Short(y)], y.k, LastOf(y))])
RECURSIVE Levels(_, _, _, _, _, _, _)
Levels(fol, fw, tab, d, p, I, len) == IF len = 0 THEN <<>> ELSE LET J == TLCEval(Leaves(fol, fw, tab, d, p, I)) IN <<J>> \o Levels(fol, fw, tab, d, p, J, len-1)
Root(k) == [k |-> k, pow |-> 0, fs |-> <<>>]
Merge(LV) == LET V == UNION {DOMAIN LV[i] : i \in 1..Len(LV)} IN
    TLCEval([y \in V |-> LET i == CHOOSE i \in 1..Len(LV) : y \in DOMAIN LV[i] IN LV[i][y]])
=============================================================================
