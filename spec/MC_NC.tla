------------------------------- MODULE MC_NC -------------------------------
(* Noncrossing partitions as a state machine: from the partition into       *)
(* points, merge two blocks that can be merged without crossing, or take a  *)
(* complement.                                                              *)
EXTENDS NormalForm, Dynnikov, Json
CONSTANTS NN, EMIT
VARIABLES w
P == PartitionOf(w)
Show(v) == LET bs == SeqOfSets(PartitionOf(v)) IN [i \in 1..Len(bs) |-> SortSet(bs[i])]
Emit(op, m) == IF EMIT THEN PrintT("EDGE " \o ToJson([n |-> NN, op |-> op, m |-> m, from |-> Show(w), to |-> Show(w'), p |-> w'])) ELSE TRUE
Merge(A, B) == LET Q == (P \ {A, B}) \cup {A \cup B} IN
    A # B /\ SetMin(A) < SetMin(B) /\ IsNoncrossing(Q) /\ w' = PermOfPartition(NN, Q) /\ Emit("merge", <<SetMin(A), SetMin(B)>>)
TakeLeft == w' = LeftComp(w) /\ Emit("left", <<>>)
TakeRight == w' = RightComp(w) /\ Emit("right", <<>>)
Init == w = IdP(NN)
Next == (\E A, B \in P : Merge(A, B)) \/ TakeLeft \/ TakeRight
Spec == Init /\ [][Next]_w
DeltaWord == [i \in 1..(NN-1) |-> <<NN-1-i, 1>>]
Laws ==
    /\ IsDualSimple(w) /\ IsPartition(NN, P) /\ IsNoncrossing(P)
    /\ PermOfPartition(NN, P) = w
    /\ LeftComp(RightComp(w)) = w /\ RightComp(LeftComp(w)) = w
    /\ PMul(w, RightComp(w)) = DeltaP(NN) /\ PMul(LeftComp(w), w) = DeltaP(NN)
    /\ Cardinality(P) + Cardinality(PartitionOf(RightComp(w))) = NN + 1
    /\ DynWord(NN, DualSimpleWord(w) \o DualSimpleWord(RightComp(w))) = DynWord(NN, DeltaWord)
    /\ DynWord(NN, DualSimpleWord(LeftComp(w)) \o DualSimpleWord(w)) = DynWord(NN, DeltaWord)
    /\ WordNF("D", NN, DualSimpleWord(w)) = SeqNF("D", NN, <<w>>)
(* Everything is reached, and there are Catalan many.                       *)
ASSUME Cardinality(NCPerms(NN)) = Catalan(NN)
=============================================================================
