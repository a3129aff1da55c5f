------------------------------ MODULE Buckets ------------------------------
(* What the operations of a search offer to a tracker, as bags of normal    *)
(* forms: extension of a bucket by suffixes, products, substrings.  F: what *)
(* may follow a factor (Images).                                            *)
EXTENDS Images, Tracker
RECURSIVE SumOver(_, _)
SumOver(f, i) == IF i > Len(f) THEN 0 ELSE f[i] + SumOver(f, i+1)
RECURSIVE Ways(_, _, _)
(* After what factor, in how many ways by len factors.                      *)
Ways(F, k, len) == IF len = 0 THEN TLCEval([x \in DOMAIN F[k] |-> 1]) ELSE
    LET W == Ways(F, k, len-1) IN TLCEval([x \in DOMAIN F[k] |-> SumMod(W, F[k][x], 1000000007)])
WaysFrom1(F, k, len) == SumMod(Ways(F, k, len-1), DOMAIN F[k], 1000000007)
(* peyl.bucketing (res) offers the products with suffixes of len factors,   *)
(* the legacy tracker every prefix of them, once for each suffix that it    *)
(* begins.  I: information of all that can be offered.                      *)
ExtensionBag(F, held, I, len, res) ==
    LET W == TLCEval([j \in 1..len |-> TLCEval([k \in DOMAIN F |-> Ways(F, k, len-j)])])
        RECURSIVE Times(_, _, _)
        Times(y, x, j) == IF j > len \/ x.fs = <<>> THEN 0 ELSE LET x1 == Short(x) IN
            (IF x1 \in DOMAIN held /\ (res => j = len) THEN held[x1] * (IF res THEN 1 ELSE W[j][y.k][LastOf(y)]) ELSE 0) + Times(y, x1, j+1)
    IN TLCEval([y \in DOMAIN I |-> Times(y, y, 1)])
Prod(m, x, y) == LET z == MulNF(x.k, m, [pow |-> x.pow, fs |-> x.fs], [pow |-> y.pow, fs |-> y.fs]) IN [k |-> x.k, pow |-> z.pow, fs |-> z.fs]
ImageBag(P, Fn(_), M(_)) == LET f == TLCEval([q \in P |-> Fn(q)])  V == {f[q] : q \in P} IN
    TLCEval([v \in V |-> LET RECURSIVE S(_)
                             S(Q) == IF Q = {} THEN 0 ELSE LET q == CHOOSE q \in Q : TRUE IN M(q) + S(Q \ {q}) IN S({q \in P : f[q] = v})])
ProductBag(m, A, B) == ImageBag((DOMAIN A) \X (DOMAIN B), LAMBDA q : Prod(m, q[1], q[2]), LAMBDA q : A[q[1]] * B[q[2]])
(* Runs of at least two consecutive factors.                                *)
SubstringBag(A) ==
    LET P == UNION {{<<x, i, j>> : i \in 0..(Len(x.fs)-2), j \in 2..Len(x.fs)} : x \in DOMAIN A}
        Q == {q \in P : q[3] >= q[2] + 2}
    IN ImageBag(Q, LAMBDA q : [k |-> q[1].k, pow |-> q[1].pow, fs |-> SubSeq(q[1].fs, q[2]+1, q[3])], LAMBDA q : A[q[1]])
=============================================================================
