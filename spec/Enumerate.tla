----------------------------- MODULE Enumerate -----------------------------
(* The tree of normal forms: which simples may follow which, how many       *)
(* normal forms there are of a length, and what an enumeration must list.   *)
EXTENDS NormalForm
RECURSIVE PermsOn(_)
PermsOn(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in PermsOn(S \ {x})} : x \in S}
SimplesG(n) == PermsOn(0..(n-1))
Simples(k, n) == IF k = "G" THEN SimplesG(n) ELSE {w \in SimplesG(n) : IsDualSimple(w)}
Proper(k, n) == Simples(k, n) \ {IdP(n), DP(k, n)}
(* last = <<>> means the empty form, after which every proper simple may come. *)
Followers(k, n, last) == IF last = <<>> THEN Proper(k, n) ELSE {y \in Proper(k, n) : PairNormal(k, last, y)}
LastOf(X) == IF X.fs = <<>> THEN <<>> ELSE X.fs[Len(X.fs)]
FollowTable(k, n) == LET S == TLCEval(Proper(k, n)) IN
    TLCEval([x \in S |-> {y \in S : PairNormal(k, x, y)}])

RECURSIVE SumMod(_, _, _)
SumMod(f, S, q) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (f[x] + SumMod(f, S \ {x}, q)) % q
RECURSIVE CountVec(_, _, _, _)
(* Number (mod q) of normal forms of the given length ending in each simple. *)
CountVec(T, f, len, q) == IF len = 0 THEN f ELSE
    CountVec(T, TLCEval([y \in DOMAIN T |-> SumMod(f, {x \in DOMAIN T : y \in T[x]}, q)]), len-1, q)
CountNF(k, n, len, q) == IF len = 0 THEN 1 % q ELSE
    LET T == FollowTable(k, n) IN SumMod(CountVec(T, [x \in DOMAIN T |-> 1], len-1, q), DOMAIN T, q)
CountFollow(k, n, last, len, q) == IF len = 0 THEN 1 % q ELSE IF last = <<>> THEN CountNF(k, n, len, q) ELSE
    LET T == FollowTable(k, n)
        f0 == [x \in DOMAIN T |-> IF PairNormal(k, last, x) THEN 1 ELSE 0]
    IN SumMod(CountVec(T, f0, len-1, q), DOMAIN T, q)
=============================================================================
