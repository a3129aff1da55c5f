----------------------------- MODULE LinkState -----------------------------
(* The two-rowed representation (n-r, r): link states on n points with r    *)
(* arcs and n-2r through strands, the Temperley-Lieb generators acting by   *)
(* reconnection.  A link state S has S[j] = partner of point j, or 0 when j *)
(* is a through strand.  sigma_i = 1 - v e_i, its inverse 1 - v^-1 e_i,     *)
(* loops count v + v^-1.  Every operator below is reduced modulo p (p = 0:  *)
(* exact).                                                                  *)
EXTENDS Laurent, FiniteSets
IsLink(n, r, S) ==
    /\ Len(S) = n
    /\ \A j \in 1..n : S[j] \in 0..n /\ S[j] # j /\ (S[j] # 0 => S[S[j]] = j)
    /\ Cardinality({j \in 1..n : S[j] # 0}) = 2*r
    /\ \A j \in 1..n : S[j] > j => \A k \in (j+1)..(S[j]-1) : S[k] # 0 /\ S[k] > j /\ S[k] < S[j]
RECURSIVE Choose2(_, _)
Choose2(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Choose2(n-1, k-1) + Choose2(n-1, k)
RepDim(n, r) == Choose2(n, r) - Choose2(n, r-1)
(* All link states, by adding a point on the right.                         *)
RECURSIVE Opens(_, _, _), LinksFrom(_, _, _)
Opens(S, j, mx) == IF j < 1 THEN {} ELSE IF S[j] = 0 THEN {j} ELSE Opens(S, S[j]-1, mx)
Close(S, j) == [i \in 1..(Len(S)+1) |-> IF i = j THEN Len(S)+1 ELSE IF i = Len(S)+1 THEN j ELSE S[i]]
LinksFrom(n, r, m) == IF n = 0 THEN (IF r = 0 THEN {<<>>} ELSE {}) ELSE
    IF r < 0 \/ 2*r > n THEN {} ELSE
    {Append(S, 0) : S \in LinksFrom(n-1, r, m)} \cup
    {Close(S, CHOOSE j \in Opens(S, Len(S), m) : TRUE) : S \in {T \in LinksFrom(n-1, r-1, m) : Opens(T, Len(T), m) # {}}}
Links(n, r) == LinksFrom(n, r, 0)

(* e_i (i from 1) on S: <<coefficient, link state>>, coefficient 0 (vanishes),
   1, or 2 (a loop).                                                        *)
EAct(S, i) ==
    IF S[i] = i+1 THEN <<2, S>>
    ELSE IF S[i] = 0 /\ S[i+1] = 0 THEN <<0, S>>
    ELSE LET a == S[i]  b == S[i+1] IN
         <<1, TLCEval([j \in 1..Len(S) |-> IF j = i THEN i+1 ELSE IF j = i+1 THEN i ELSE
                               IF j = a THEN b ELSE IF j = b THEN a ELSE S[j]])>>
(* basis: sequence of all link states.  Table of <<coefficient, index>>.    *)
ActionTable(n, basis) ==
    TLCEval([i \in 1..(n-1) |-> TLCEval([a \in 1..Len(basis) |->
        LET r == EAct(basis[a], i) IN
        IF r[1] = 0 THEN <<0, 0>> ELSE <<r[1], CHOOSE b \in 1..Len(basis) : basis[b] = r[2]>>])])
Loop == [lo |-> -1, c |-> <<1, 0, 1>>]
RECURSIVE SumHits(_, _, _, _)
SumHits(row, x, b, a) == IF a > Len(row) THEN LZero ELSE
    IF row[a][2] = b THEN LAdd(IF row[a][1] = 2 THEN LMul(Loop, x[a]) ELSE x[a], SumHits(row, x, b, a+1)) ELSE SumHits(row, x, b, a+1)
(* sigma_i^e x for e = 1 or -1, i from 0.                                   *)
ActLetter(tab, p, x, i, e) ==
    TLCEval([b \in 1..Len(x) |-> LMod(LSub(x[b], LShift(SumHits(tab[i+1], x, b, 1), e)), p)])
RECURSIVE ActRep(_, _, _, _, _), ActFrom(_, _, _, _, _)
ActRep(tab, p, x, i, e) == IF e = 0 THEN x ELSE IF e > 0 THEN ActRep(tab, p, ActLetter(tab, p, x, i, 1), i, e-1)
                           ELSE ActRep(tab, p, ActLetter(tab, p, x, i, -1), i, e+1)
ActFrom(tab, p, x, w, k) == IF k < 1 THEN x ELSE ActFrom(tab, p, ActRep(tab, p, x, w[k][1], w[k][2]), w, k-1)
Unit(D, b) == TLCEval([a \in 1..D |-> IF a = b THEN LOne ELSE LZero])
(* A matrix is the sequence of its columns.                                 *)
(* Built from the left: M sigma_i^e changes columns by columns.             *)
(* a - v^e b, or a - v^e (v + v^-1) b for a loop.                           *)
Axpy(a, b, e, loop, p) == IF b.c = <<>> THEN a ELSE
    LET k == IF loop THEN 1 ELSE 0
        lo == IF a.c = <<>> \/ b.lo+e-k < a.lo THEN b.lo+e-k ELSE a.lo
        hi == IF a.c = <<>> \/ LHi(b)+e+k > LHi(a) THEN LHi(b)+e+k ELSE LHi(a)
        at(m) == Coef(a, m) - (IF loop THEN Coef(b, m-e-1) + Coef(b, m-e+1) ELSE Coef(b, m-e))
    IN LTrim([lo |-> lo, c |-> TLCEval([i \in 1..(hi-lo+1) |-> IF p = 0 THEN at(lo+i-1) ELSE at(lo+i-1) % p])])
MulLetter(tab, D, p, M, i, e) == TLCEval([b \in 1..D |-> LET q == tab[i+1][b] IN
    IF q[1] = 0 THEN M[b] ELSE LET N == M[q[2]] IN TLCEval([a \in 1..D |-> Axpy(M[b][a], N[a], e, q[1] = 2, p)])])
RECURSIVE MulLetters(_, _, _, _, _, _), MulWord(_, _, _, _, _, _)
MulLetters(tab, D, p, M, i, e) == IF e = 0 THEN M ELSE IF e > 0 THEN MulLetters(tab, D, p, MulLetter(tab, D, p, M, i, 1), i, e-1)
                                  ELSE MulLetters(tab, D, p, MulLetter(tab, D, p, M, i, -1), i, e+1)
MulWord(tab, D, p, M, w, k) == IF k > Len(w) THEN M ELSE MulWord(tab, D, p, MulLetters(tab, D, p, M, w[k][1], w[k][2]), w, k+1)
UnitMat(D, p) == TLCEval([b \in 1..D |-> TLCEval([a \in 1..D |-> IF a = b THEN LMod(LOne, p) ELSE LZero])])
WordMat(tab, D, p, w) == MulWord(tab, D, p, UnitMat(D, p), w, 1)
Entry(M, i, j) == M[j][i]
IsScalar(M) == \A i, j \in 1..Len(M) : IF i = j THEN Entry(M, i, i) = Entry(M, 1, 1) ELSE Entry(M, i, j) = LZero
(* Least power of v over all entries.                                       *)
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
Valuation(M) == LET S == {Entry(M, i, j).lo : i \in {i \in 1..Len(M) : TRUE}, j \in {j \in 1..Len(M) : TRUE}} IN
    MinOf({Entry(M, ij[1], ij[2]).lo : ij \in {q \in (1..Len(M)) \X (1..Len(M)) : Entry(M, q[1], q[2]).c # <<>>}})

(* Diagrams as the code writes them: bottom points 0..m-1 from the left,    *)
(* then top points from the right, m = n - 2r of them at the bottom.        *)
FromDiag(n, m, s) == TLCEval([j \in 1..n |-> LET q == s[m+n-j+1] IN IF q < m THEN 0 ELSE n - (q - m)])
IsDiag(n, m, s) == /\ Len(s) = n + m
                   /\ \A i \in 1..(n+m) : s[i] \in 0..(n+m-1) /\ s[i] # i-1 /\ s[s[i]+1] = i-1
                   /\ \A i \in 1..m : s[i] >= m
                   /\ \A i, j \in 1..m : i < j => s[i] > s[j]
=============================================================================
