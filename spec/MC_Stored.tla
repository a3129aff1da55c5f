----------------------------- MODULE MC_Stored -----------------------------
(* Stored texts on their own: reading what was written gives the braid      *)
(* back, different braids have different texts; and every text obtained     *)
(* from a written one by up to EDITS edits of one token (emitted for the    *)
(* replay against the code).                                                *)
EXTENDS Stored, Json, FiniteSets
CONSTANTS NN, LMAX, EDITS, EMIT
VARIABLES T, orig, e
(* Numbers for this model: the divisors in some fixed order.                *)
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET w == CHOOSE w \in S : TRUE IN <<w>> \o Order(S \ {w})
NumM == TLCEval([k \in {"G", "D"} |-> TLCEval([m \in 1..NN |-> TLCEval(Order(IF k = "G" THEN AllPerms(m) ELSE {w \in AllPerms(m) : IsDualSimple(w)}))])])
Ord(k) == Len(NumM[k][NN])
Lists(k) == UNION {[1..j -> 0..(Ord(k)-1)] : j \in 0..LMAX}
Toks == {TTok("G"), TTok("D"), TTok("("), TTok(")"), TTok(",")} \cup {<<"int", i>> : i \in {-1, 0, 1, 2, NN, Ord("D"), Ord("G") - 1, Ord("G"), 4711}} \cup {<<"other", i>> : i \in 1..7}
Out(U) == IF EMIT /\ Denoted(NumM, U) # <<"?">> THEN PrintT("EDGE " \o ToJson([T |-> U])) ELSE TRUE
Init == /\ \E k \in {"G", "D"}, p \in {-2, 0, 1} : \E is \in Lists(k) : orig = <<k, p, is>> /\ T = Text(k, NN, p, is)
        /\ e = 0
        /\ Out(T)
Drop(i) == SubSeq(T, 1, i-1) \o SubSeq(T, i+1, Len(T))
Put(i, x) == [T EXCEPT ![i] = x]
Ins(i, x) == SubSeq(T, 1, i-1) \o <<x>> \o SubSeq(T, i, Len(T))
Swap(i) == [T EXCEPT ![i] = T[i+1], ![i+1] = T[i]]
Edited(U) == T' = U /\ e' = e + 1 /\ orig' = orig /\ Out(U)
Next == /\ e < EDITS
        /\ \/ \E i \in 1..Len(T) : Edited(Drop(i)) \/ \E x \in Toks : Edited(Put(i, x))
           \/ \E i \in 1..(Len(T)+1), x \in Toks : Edited(Ins(i, x))
           \/ \E i \in 1..(Len(T)-1) : Edited(Swap(i))
Spec == Init /\ [][Next]_<<T, orig, e>>
VT == T
(* What was written is read back, and is a braid exactly when it is a       *)
(* normal form.                                                             *)
ReadsBack == e > 0 \/
    LET v == Expr(T, 2)[1]  k == orig[1]  fs == [i \in 1..Len(orig[3]) |-> NumM[k][NN][orig[3][i] + 1]] IN
    /\ Canonical(T) /\ T[1][1] = k /\ v.s[1].i = NN /\ v.s[2].i = orig[2] /\ [i \in 1..Len(v.s[3].s) |-> v.s[3].s[i].i] = orig[3]
    /\ Denoted(NumM, T) = (IF IsNF(k, NN, [pow |-> 0, fs |-> fs]) THEN <<k, NN, [pow |-> orig[2], fs |-> fs]>> ELSE <<>>)
(* Texts that denote the same braid differ in punctuation only.             *)
Ints(U) == SelectSeq(U, LAMBDA x : x[1] = "int")
Punctuation == LET d == Denoted(NumM, T) IN
    d # <<>> /\ d # <<"?">> => \E is \in {SubSeq(Ints(T), 3, Len(Ints(T)))} :
        /\ Denoted(NumM, Text(T[1][1], Ints(T)[1][2], Ints(T)[2][2], [i \in 1..Len(is) |-> is[i][2]])) = d
        /\ \A i \in 2..Len(T) : T[i][1] \in {"int", "(", ")", ","}
=============================================================================
