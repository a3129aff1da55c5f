------------------------------ MODULE MC_Enum ------------------------------
(* The tree of normal forms.  Exhaustive: growing a form by a follower is   *)
(* multiplication without cancellation and every other factor cancels; the  *)
(* transfer-matrix count is the number of nodes at each depth.              *)
EXTENDS Enumerate
CONSTANTS KK, NN, LL
VARIABLE fs
Init == fs = <<>>
Next == Len(fs) < LL /\ \E y \in Followers(KK, NN, IF fs = <<>> THEN <<>> ELSE fs[Len(fs)]) : fs' = Append(fs, y)
Spec == Init /\ [][Next]_fs
X == [pow |-> 0, fs |-> fs]
Normal == IsNF(KK, NN, X)
LastF == IF fs = <<>> THEN <<>> ELSE fs[Len(fs)]
Appends == \A y \in Proper(KK, NN) : (y \in Followers(KK, NN, LastF)) <=> (MulSimple(KK, NN, X, y) = [pow |-> 0, fs |-> Append(fs, y)])
(* Suffix counts by transfer agree with growing.                            *)
Suffixes == \A m \in 0..1 : CountFollow(KK, NN, LastF, m, 1000003) = IF m = 0 THEN 1 ELSE Cardinality(Followers(KK, NN, LastF)) % 1000003
RECURSIVE Grow(_)
Grow(m) == IF m = 0 THEN {<<>>} ELSE UNION {{Append(f, y) : y \in Followers(KK, NN, IF f = <<>> THEN <<>> ELSE f[Len(f)])} : f \in Grow(m-1)}
Depth == IF KK = "G" THEN 2 ELSE 3
ASSUME \A m \in 0..Depth : CountNF(KK, NN, m, 1000003) = Cardinality(Grow(m)) % 1000003
=============================================================================
