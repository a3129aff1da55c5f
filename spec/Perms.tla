------------------------------- MODULE Perms -------------------------------
(* Permutations of {0..n-1} as tuples: p[i+1] is the image of i.            *)
(* Products are composed right to left: (xy)(i) = x(y(i)).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* TLCEval only forces TLC to evaluate a function once; it is the identity. *)

IsPerm(w) == {w[i] : i \in 1..Len(w)} = 0..(Len(w)-1)
IdP(n) == TLCEval([i \in 1..n |-> i-1])
W0(n)  == TLCEval([i \in 1..n |-> n-i])
PMul(x, y) == TLCEval([i \in 1..Len(y) |-> x[y[i]+1]])
PInv(x) == TLCEval([i \in 1..Len(x) |-> (CHOOSE j \in 1..Len(x) : x[j] = i-1) - 1])
(* The transposition exchanging i and j.                                    *)
Transp(n, i, j) == TLCEval([k \in 1..n |-> IF k = i+1 THEN j ELSE IF k = j+1 THEN i ELSE k-1])
Simple(n, i) == Transp(n, i, i+1)

(* Descents: i is a right (left) descent of w when w s_i (s_i w) is shorter. *)
RDesc(w) == {i \in 0..(Len(w)-2) : w[i+1] > w[i+2]}
LDesc(w) == RDesc(PInv(w))
PLen(w) == Cardinality({<<i, j>> \in (1..Len(w)) \X (1..Len(w)) : i < j /\ w[i] > w[j]})

(* w s_i and s_i w.                                                         *)
MulS(w, s) == [w EXCEPT ![s+1] = w[s+2], ![s+2] = w[s+1]]
SMul(s, w) == TLCEval([i \in 1..Len(w) |-> IF w[i] = s THEN s+1 ELSE IF w[i] = s+1 THEN s ELSE w[i]])

RECURSIVE FromCox(_, _, _)
FromCox(w, c, k) == IF k > Len(c) THEN w ELSE FromCox(MulS(w, c[k]), c, k+1)
PermOfCox(n, c) == FromCox(IdP(n), c, 1)

(* The least reduced word: repeatedly take off the least left descent.      *)
RECURSIVE ShortLex(_)
ShortLex(w) == LET D == LDesc(w) IN
    IF D = {} THEN <<>>
    ELSE LET s == CHOOSE s \in D : \A u \in D : s <= u IN <<s>> \o ShortLex(SMul(s, w))

(* Cycles.                                                                  *)
RECURSIVE OrbitFrom(_, _, _)
OrbitFrom(w, start, x) == IF w[x+1] = start THEN <<x>> ELSE <<x>> \o OrbitFrom(w, start, w[x+1])
Orbit(w, x) == OrbitFrom(w, x, x)
SeqRange(s) == {s[i] : i \in 1..Len(s)}
OrbitSet(w, x) == SeqRange(Orbit(w, x))
Mins(w) == {x \in 0..(Len(w)-1) : \A y \in OrbitSet(w, x) : x <= y}
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o SortSet(S \ {m})
Cycles(w) == LET ms == SortSet(Mins(w)) IN [i \in 1..Len(ms) |-> Orbit(w, ms[i])]
(* The permutation sending c[1] to c[2], ..., c[k] to c[1].                 *)
PermOfCycle(n, c) == TLCEval([i \in 1..n |-> IF (i-1) \in SeqRange(c)
    THEN LET k == CHOOSE k \in 1..Len(c) : c[k] = i-1 IN c[(k % Len(c)) + 1] ELSE i-1])
RECURSIVE ProdCycles(_, _)
ProdCycles(n, cs) == IF cs = <<>> THEN IdP(n) ELSE PMul(PermOfCycle(n, Head(cs)), ProdCycles(n, Tail(cs)))
(* Lengths of cycles in decreasing order.                                   *)
RECURSIVE SortDown(_)
SortDown(s) == IF s = <<>> THEN <<>> ELSE
    LET k == CHOOSE k \in 1..Len(s) : \A j \in 1..Len(s) : s[j] <= s[k]
    IN <<s[k]>> \o SortDown(TLCEval([i \in 1..(Len(s)-1) |-> IF i < k THEN s[i] ELSE s[i+1]]))
CycleType(w) == LET cs == Cycles(w) IN SortDown([i \in 1..Len(cs) |-> Len(cs[i])])
Parity(w) == PLen(w) % 2
AllPerms(n) == {w \in [1..n -> 0..(n-1)] : IsPerm(w)}
=============================================================================
