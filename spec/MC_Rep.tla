------------------------------- MODULE MC_Rep -------------------------------
(* The action of words on link states is an action of the braid group:      *)
(* exhaustive over all braids within LL letters, x in normal form, M its    *)
(* matrix built letter by letter (growing on the left).                     *)
EXTENDS LinkState, NormalForm, Json
CONSTANTS NN, RR, PP, LL, EMIT
VARIABLES x, M, l
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : TRUE IN <<a>> \o SetToSeq(S \ {a})
Basis == TLCEval(SetToSeq(Links(NN, RR)))
DD == Len(Basis)
Tab == TLCEval(ActionTable(NN, Basis))
ASSUME DD = RepDim(NN, RR) /\ \A i \in 1..DD : IsLink(NN, RR, Basis[i])
Init == x = IdB(NN) /\ M = WordMat(Tab, DD, PP, <<>>) /\ l = 0
Emit(i, e) == IF EMIT THEN PrintT("EDGE " \o ToJson([n |-> NN, r |-> RR, p |-> PP, i |-> i, e |-> e, g |-> x, gg |-> x', links |-> Basis, cols |-> M'])) ELSE TRUE
Letter(i, e) == /\ l < LL
                /\ x' = MulNF("G", NN, WordNF("G", NN, <<<<i, e>>>>), x)
                /\ M' = TLCEval([b \in 1..DD |-> ActLetter(Tab, PP, M[b], i, e)])
                /\ l' = l + 1
                /\ Emit(i, e)
Next == \E i \in 0..(NN-2), e \in {1, -1} : Letter(i, e)
Spec == Init /\ [][Next]_<<x, M, l>>
VX == x
VXM == <<x, M>>
(* The matrix depends only on the braid: both normal forms give it.         *)
WellDefined == /\ M = WordMat(Tab, DD, PP, NFWord("G", NN, x))
               /\ M = WordMat(Tab, DD, PP, NFWord("D", NN, ConvNF("G", NN, x)))
(* The full twist is central and acts by the scalar v^(2(n(n-1)/2 ...)): a
   scalar, as used by the bulk evaluation.                                  *)
FullTwistScalar == /\ IsScalar(WordMat(Tab, DD, PP, RepWord(SimpleWord("G", W0(NN)), 2)))
                   /\ IsScalar(WordMat(Tab, DD, PP, RepWord(SimpleWord("D", DeltaP(NN)), NN)))
ASSUME FullTwistScalar
=============================================================================
