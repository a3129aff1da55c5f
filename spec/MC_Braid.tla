------------------------------ MODULE MC_Braid ------------------------------
(* Exhaustive: every braid within LL letters of the identity of B_NN, kept  *)
(* at once in Garside form x, dual form y and Dynnikov coordinates d.       *)
EXTENDS NormalForm, Dynnikov, TLC, Json
CONSTANTS NN, LL, EMIT
VARIABLES x, y, d, l
Init == x = IdB(NN) /\ y = IdB(NN) /\ d = DynId(NN) /\ l = 0
Emit(i, e) == IF EMIT THEN PrintT("EDGE " \o ToJson([n |-> NN, i |-> i, e |-> e, g |-> x, gg |-> x', d |-> y, dd |-> y'])) ELSE TRUE
Letter(i, e) == /\ l < LL
                /\ x' = LetterNF("G", NN, x, i, e)
                /\ y' = LetterNF("D", NN, y, i, e)
                /\ d' = DynLetter(d, i, e)
                /\ l' = l + 1
                /\ Emit(i, e)
Next == \E i \in 0..(NN-2), e \in {1, -1} : Letter(i, e)
Spec == Init /\ [][Next]_<<x, y, d, l>>
VX == x
VY == y
VD == d
VALL == <<x, y, d>>
(* Both forms are normal.                                                   *)
Normal == IsNF("G", NN, x) /\ IsNF("D", NN, y)
(* Both forms denote the braid d (independent oracle).                      *)
Denotes == DynWord(NN, NFWord("G", NN, x)) = d /\ DynWord(NN, NFWord("D", NN, y)) = d
Converts == ConvNF("G", NN, x) = y /\ ConvNF("D", NN, y) = x
Inverses == /\ MulNF("G", NN, InvNF("G", NN, x), x) = IdB(NN) /\ MulNF("G", NN, x, InvNF("G", NN, x)) = IdB(NN)
            /\ MulNF("D", NN, InvNF("D", NN, y), y) = IdB(NN) /\ MulNF("D", NN, y, InvNF("D", NN, y)) = IdB(NN)
FiveTimes(k, z) == MulNF(k, NN, MulNF(k, NN, MulNF(k, NN, MulNF(k, NN, z, z), z), z), z)
Powers == /\ PowNF("G", NN, x, 5) = FiveTimes("G", x) /\ PowNF("D", NN, y, 5) = FiveTimes("D", y)
          /\ PowNF("G", NN, x, -5) = InvNF("G", NN, FiveTimes("G", x))
=============================================================================
