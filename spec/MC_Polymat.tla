----------------------------- MODULE MC_Polymat -----------------------------
(* Small-scope laws of tensors, exhaustive over all pairs of an I x J and a *)
(* J x K matrix whose entries have D coefficients in 0..CC or -1..CC; each  *)
(* pair is a behaviour replayed in the code.                                *)
EXTENDS Polymat, Json
CONSTANTS II, JJ, KK, DD, EE, NEG, HIC, EMIT
VARIABLES A, B, done
Vecs(d) == [1..d -> (-NEG)..HIC]
Grid(r, c, d) == [1..r -> [1..c -> Vecs(d)]]
Conc(x) == TLCEval([i \in 1..Len(x) |-> [j \in 1..Len(x[i]) |-> LC(0, x[i][j])]])
MatOf(x, r, c) == [r |-> r, c |-> c, e |-> Conc(x)]
Init == A \in Grid(II, JJ, DD) /\ B \in Grid(JJ, KK, EE) /\ done = 0
MA == MatOf(A, II, JJ)
MB == MatOf(B, JJ, KK)
(* A matrix as a list of pairs <<lo, c>>.                                   *)
Show(M) == [i \in 1..M.r |-> [j \in 1..M.c |-> <<M.e[i][j].lo, M.e[i][j].c>>]]
St(M) == IF IsZeroM(M) THEN <<0, 0, 0>> ELSE <<ProjLen(M), MVal(M), MDeg(M)>>
Out == [a |-> A, b |-> B, p |-> Show(MMul(MA, MB)), sa |-> St(MA), sp |-> St(MMul(MA, MB)), na |-> MTerms(MA),
        ra |-> IF II * JJ = 1 \/ IsZeroM(MA) THEN 0 ELSE ProjRank(MShift(MA, -MVal(MA)), 2)]
Next == done = 0 /\ done' = 1 /\ UNCHANGED <<A, B>> /\ (IF EMIT THEN PrintT("EDGE " \o ToJson(Out)) ELSE TRUE)
Spec == Init /\ [][Next]_<<A, B, done>>
(* Laws the statistics and operations obey.                                 *)
Laws == LET P == MMul(MA, MB) IN
    /\ MTrans(P) = MMul(MTrans(MB), MTrans(MA))
    /\ ~IsZeroM(P) => MVal(P) >= MVal(MA) + MVal(MB) /\ MDeg(P) <= MDeg(MA) + MDeg(MB) /\ ProjLen(P) <= ProjLen(MA) + ProjLen(MB) - 1
    /\ ~IsZeroM(MA) => ProjLen(MShift(MA, 3)) = ProjLen(MA) /\ Projective(<<MShift(MA, 2)>>) = Projective(<<MA>>)
    /\ MTrunc(MMul(MTrunc(MA, 1), MTrunc(MB, 1)), 1) = MTrunc(P, 1)
    /\ (II = 1 /\ JJ = 1) => ProjLen(MA) = Len(MA.e[1][1].c)
=============================================================================
