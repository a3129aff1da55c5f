------------------------------ MODULE MC_Perm ------------------------------
(* The symmetric group as a state machine: w is multiplied on the right by  *)
(* a generator or a reflection, or inverted.  All of S_NN is reached.       *)
EXTENDS Perms, Json
CONSTANTS NN, EMIT, DEEP
VARIABLES w
Refl == {p \in (0..(NN-1)) \X (0..(NN-1)) : p[1] < p[2]}
Out == [w |-> w', len |-> PLen(w'), sl |-> ShortLex(w'), cyc |-> Cycles(w'), rd |-> SortSet(RDesc(w')), ld |-> SortSet(LDesc(w')), par |-> Parity(w')]
Emit(op, r) == IF EMIT THEN PrintT("EDGE " \o ToJson([n |-> NN, op |-> op, r |-> r, from |-> w, to |-> Out])) ELSE TRUE
Right(r) == w' = PMul(w, Transp(NN, r[1], r[2])) /\ Emit("right", r)
Left(r)  == w' = PMul(Transp(NN, r[1], r[2]), w) /\ Emit("left", r)
Inverse  == w' = PInv(w) /\ Emit("inv", <<>>)
Init == w = IdP(NN)
Next == (\E r \in Refl : Right(r) \/ Left(r)) \/ Inverse
Spec == Init /\ [][Next]_w
LexLess(u, v) == \E k \in 1..Len(u) : k <= Len(v) /\ u[k] < v[k] /\ \A j \in 1..(k-1) : u[j] = v[j]
Laws ==
    /\ IsPerm(w)
    /\ PMul(w, PInv(w)) = IdP(NN) /\ PMul(PInv(w), w) = IdP(NN)
    /\ PermOfCox(NN, ShortLex(w)) = w /\ Len(ShortLex(w)) = PLen(w)
    /\ ProdCycles(NN, Cycles(w)) = w
    /\ Parity(w) = (NN + Len(Cycles(w))) % 2
    /\ PLen(PMul(W0(NN), w)) = PLen(W0(NN)) - PLen(w)
    /\ \A i \in 0..(NN-2) : /\ PLen(MulS(w, i)) = PLen(w) + (IF i \in RDesc(w) THEN -1 ELSE 1)
                            /\ PLen(SMul(i, w)) = PLen(w) + (IF i \in LDesc(w) THEN -1 ELSE 1)
                            /\ PMul(w, Simple(NN, i)) = MulS(w, i) /\ PMul(Simple(NN, i), w) = SMul(i, w)
    /\ DEEP => \A c \in [1..PLen(w) -> 0..(NN-2)] : PermOfCox(NN, c) = w => ~LexLess(c, ShortLex(w))
=============================================================================
