------------------------------ MODULE Tracker ------------------------------
(* Buckets of braids.  A braid is a normal form [k, pow, fs]; a bucket is   *)
(* [held, count, w]: held a bag (function braid -> multiplicity), count and *)
(* w the number and total weight of the braids offered since its creation.  *)
(* The methods:                                                             *)
(*   GreedyFirst, Uniform, AChao, EvictMin   (peyl.bucketing)               *)
(*   Legacy (no random source), LegacyR (random source)  (peyl.braidsearch) *)
EXTENDS Integers, Sequences, FiniteSets, TLC
BEmpty == [x \in {} |-> 0]
BIn(A, x) == IF x \in DOMAIN A THEN A[x] ELSE 0
BAdd(A, B) == TLCEval([x \in DOMAIN A \cup DOMAIN B |-> BIn(A, x) + BIn(B, x)])
BOne(x) == (x :> 1)
RECURSIVE BOfSeq(_), BSum(_, _), BSize(_)
BOfSeq(s) == IF s = <<>> THEN BEmpty ELSE IF Len(s) = 1 THEN BOne(s[1]) ELSE LET h == Len(s) \div 2 IN BAdd(BOfSeq(SubSeq(s, 1, h)), BOfSeq(SubSeq(s, h+1, Len(s))))
BSum(A, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN BIn(A, x) + BSum(A, S \ {x})
BSize(A) == BSum(A, DOMAIN A)
BLeq(A, B) == \A x \in DOMAIN A : A[x] <= BIn(B, x)
BOfSet(S) == TLCEval([x \in S |-> 1])
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
NewBucket == [held |-> BEmpty, count |-> 0, w |-> 0]
RECURSIVE WSum(_, _)
WSum(s, W) == IF s = <<>> THEN 0 ELSE W[s[1]] + WSum(Tail(s), W)

(* One offer to one bucket: the set of possible contents afterwards.  W     *)
(* gives the weights, c is the capacity, tot the weight seen including x.   *)
AfterOne(method, c, held, x, W, tot) ==
    LET full == BSize(held) = c
        swap(y) == BAdd(TLCEval([z \in {z \in DOMAIN held : z # y \/ held[z] > 1} |-> IF z = y THEN held[z]-1 ELSE held[z]]), BOne(x))
        least == {y \in DOMAIN held : \A z \in DOMAIN held : W[y] <= W[z]}
    IN CASE ~full -> {IF method \in {"Legacy", "LegacyR"} /\ x \in DOMAIN held THEN held ELSE BAdd(held, BOne(x))}
         [] full /\ method \in {"GreedyFirst", "Legacy"} -> {held}
         [] full /\ method \in {"Uniform", "LegacyR"} -> {held} \cup {swap(y) : y \in DOMAIN held}
         [] full /\ method = "AChao" -> (IF W[x] = tot /\ tot > 0 THEN {} ELSE {held}) \cup (IF W[x] > 0 THEN {swap(y) : y \in DOMAIN held} ELSE {})
         [] full /\ method = "EvictMin" -> IF \E y \in least : W[x] > W[y] THEN {swap(y) : y \in least} ELSE {held}

(* Many offers at once.  H can be the contents after the braids of s were   *)
(* offered in this order.                                                   *)
RECURSIVE Fill(_, _, _, _, _)
(* Contents until the bucket is full, and the rest of the offers.           *)
Fill(method, c, held, s, size) == IF s = <<>> \/ size = c THEN <<held, s>> ELSE
    IF method \in {"Legacy", "LegacyR"} /\ s[1] \in DOMAIN held THEN Fill(method, c, held, Tail(s), size)
    ELSE Fill(method, c, BAdd(held, BOne(s[1])), Tail(s), size+1)
CountAbove(A, W, v) == BSum(A, {x \in DOMAIN A : W[x] >= v})
(* The heaviest c, any of equal weight.                                     *)
Heaviest(H, U, W, c) == /\ BLeq(H, U)
    /\ \A v \in {W[x] : x \in DOMAIN U} : CountAbove(H, W, v) = MinI(c, CountAbove(U, W, v))
Possible(method, c, held, s, W, tot, H) ==
    LET F == TLCEval(Fill(method, c, held, s, BSize(held)))  base == F[1]  rest == F[2] IN
    IF rest = <<>> THEN H = base
    ELSE IF Len(rest) = 1 THEN H \in AfterOne(method, c, base, rest[1], W, tot)
    ELSE CASE method \in {"GreedyFirst", "Legacy"} -> H = base
           [] method \in {"Uniform", "LegacyR"} -> BSize(H) = c /\ BLeq(H, BAdd(base, BOfSeq(rest)))
           [] method = "AChao" -> BSize(H) = c /\ BLeq(H, BAdd(base, BOfSeq(SelectSeq(rest, LAMBDA x : W[x] > 0))))
           [] method = "EvictMin" ->
              LET adm == SelectSeq([i \in 1..Len(rest) |-> <<rest[i], i>>], LAMBDA q : CountAbove(BAdd(base, BOfSeq(SubSeq(rest, 1, q[2]-1))), W, W[q[1]]) < c)
              IN Heaviest(H, BAdd(base, BOfSeq(rest)), W, c) /\ BLeq(H, BAdd(base, BOfSeq([i \in 1..Len(adm) |-> adm[i][1]])))
(* The braids of the bag O were offered in some order.                      *)
PossibleAny(method, c, held, O, W, H) ==
    LET U == BAdd(held, O)  N == DOMAIN U IN
    CASE method = "GreedyFirst" -> IF BSize(U) <= c THEN H = U ELSE BSize(H) = c /\ BLeq(held, H) /\ BLeq(H, U)
      [] method \in {"Uniform", "AChao"} -> IF BSize(U) <= c THEN H = U ELSE BSize(H) = c /\ BLeq(H, U)
      [] method = "EvictMin" -> IF BSize(U) <= c THEN H = U ELSE BSize(H) = c /\ Heaviest(H, U, W, c)
      [] method = "Legacy" -> LET V == BAdd(held, BOfSet(DOMAIN O \ DOMAIN held)) IN
              IF BSize(V) <= c THEN H = V ELSE BSize(H) = c /\ BLeq(held, H) /\ BLeq(H, V)
      [] method = "LegacyR" -> LET V == BAdd(held, BOfSet(DOMAIN O \ DOMAIN held)) IN
              IF BSize(V) < c \/ BSize(U) <= c THEN H = V ELSE BSize(H) = c /\ BLeq(H, U)

(* Probability, in units of 1/G, that the i-th of the offers with weights   *)
(* ws is still held at the end, from the rules: a full bucket of c takes    *)
(* the j-th offer with probability A(j) and then loses a uniformly chosen   *)
(* one.  A(j) is c/j for uniform sampling, w_j / (w_1 + ... + w_j) weighted.*)
G == 20000
RECURSIVE PSum(_, _), Survive(_, _, _, _, _)
PSum(ws, j) == IF j = 0 THEN 0 ELSE ws[j] + PSum(ws, j-1)
RoundDiv(a, b) == (2*a + b) \div (2*b)
(* p (1 - A(j)/c)                                                           *)
Survive(method, c, ws, p, j) == IF j > Len(ws) THEN p ELSE IF j <= c THEN Survive(method, c, ws, p, j+1) ELSE
    IF method = "AChao" THEN LET T == PSum(ws, j) IN Survive(method, c, ws, IF T = 0 THEN p ELSE RoundDiv(p * (c * T - ws[j]), c * T), j+1)
    ELSE Survive(method, c, ws, RoundDiv(p * (j - 1), j), j+1)
HeldP(method, c, ws, i) ==
    LET enter == IF i <= c THEN G ELSE IF method = "AChao" THEN (IF PSum(ws, i) = 0 THEN 0 ELSE RoundDiv(G * ws[i], PSum(ws, i))) ELSE RoundDiv(G * c, i)
    IN Survive(method, c, ws, enter, i+1)
(* x successes out of T trials of probability p/G: within 6 sigma and a     *)
(* little for rounding.                                                     *)
Plausible(x, T, p) ==
    LET m == (T * p) \div G                         \* T <= 100000
        q == p \div 20                              \* out of 1000
        var == (((T * q) \div 1000) * (1000 - q)) \div 1000 + 2
        d == (IF x > m THEN x - m ELSE m - x) - 4
    IN d <= 0 \/ (d <= 40000 /\ d * d <= 36 * var)
=============================================================================
