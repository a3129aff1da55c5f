------------------------------- MODULE MC_LKB -------------------------------
(* The representation as an explicit specification: Krammer's action of the *)
(* generators on the chords (i, j), i < j, of n points, for units q and t.  *)
(* Exhaustive over braids within LL letters: the matrix depends only on the *)
(* braid, and each generator has the cubic the trace specification asks for.*)
EXTENDS Algebra, NormalForm, Json
CONSTANTS NN, LL, QE, TE, EMIT
VARIABLES x, M, w
qq == LMono(1, QE)
tt == LMono(1, TE - 20)       \* configuration files have no negative numbers
RECURSIVE ChordsFrom(_, _)
ChordsFrom(i, j) == IF i >= NN-1 THEN <<>> ELSE IF j >= NN THEN ChordsFrom(i+1, i+2) ELSE <<<<i, j>>>> \o ChordsFrom(i, j+1)
Chords == TLCEval(ChordsFrom(0, 1))
DD == Len(Chords)
(* sigma_s applied to the chord (i, j): the coefficient of the chord c.     *)
Col(s, i, j, c) ==
    LET one(a, b) == IF c = <<a, b>> THEN LOne ELSE LZero
        at(a, b, v) == IF c = <<a, b>> THEN v ELSE LZero
        q1 == LSub(qq, LOne)
    IN CASE i = s /\ j = s+1 -> at(i, j, LMul(tt, LPow(qq, 2)))
         [] i < s /\ j = s -> LAdd(at(i, j, LSub(LOne, qq)), at(i, j+1, qq))
         [] i < s /\ j = s+1 -> LAdd(at(i, j-1, LOne), at(s, s+1, LMul(LMul(tt, LPow(qq, j-i)), q1)))
         [] i = s /\ j > s+1 -> LAdd(at(s, s+1, LMul(LMul(tt, qq), q1)), at(i+1, j, qq))
         [] i = s+1 /\ j > s+1 -> LAdd(one(i-1, j), at(i, j, LSub(LOne, qq)))
         [] i < s /\ j > s+1 -> LAdd(one(i, j), at(s, s+1, LMul(LMul(tt, LPow(qq, s-i)), LPow(q1, 2))))
         [] OTHER -> one(i, j)
Gen(s) == TLCEval(MFun(DD, DD, LAMBDA a, b : Col(s, Chords[b][1], Chords[b][2], Chords[a])))
Gens == TLCEval([s \in 0..(NN-2) |-> Gen(s)])
E1 == LAdd(LSub(LOne, qq), LMul(tt, LPow(qq, 2)))
E2 == LAdd(LNeg(qq), LSub(LMul(tt, LPow(qq, 2)), LMul(tt, LPow(qq, 3))))
E3 == LNeg(LMul(tt, LPow(qq, 3)))
MAdd(A, B) == MSub(A, MScale(-1, B))
Inv(G) == MMul(MAdd(MSub(MMul(G, G), MMul(MScalar(DD, E1), G)), MScalar(DD, E2)), MScalar(DD, LPow(E3, -1)))
Invs == TLCEval([s \in 0..(NN-2) |-> Inv(Gens[s])])
ASSUME \A s \in 0..(NN-2) : MMul(Gens[s], Invs[s]) = MId(DD) /\ MTrace(Gens[s]) = LAdd(LInt(DD - (NN-1)), LAdd(LScale(NN-2, LNeg(qq)), LMul(tt, LPow(qq, 2))))
Init == x = IdB(NN) /\ M = MId(DD) /\ w = <<>>
Letter(i, e) == /\ Len(w) < LL /\ w' = Append(w, <<i, e>>)
                /\ x' = MulNF("G", NN, x, WordNF("G", NN, <<<<i, e>>>>))
                /\ M' = TLCEval(MMul(M, IF e = 1 THEN Gens[i] ELSE Invs[i]))
                /\ (IF EMIT THEN PrintT("EDGE " \o ToJson([n |-> NN, q |-> QE, t |-> TE - 20, w |-> w', g |-> x', tr |-> <<MTrace(M').lo, MTrace(M').c>>])) ELSE TRUE)
Next == \E i \in 0..(NN-2), e \in {1, -1} : Letter(i, e)
Spec == Init /\ [][Next]_<<x, M, w>>
VX == x
VXM == <<x, M>>
RECURSIVE Rep(_, _, _)
Rep(N, G, e) == IF e = 0 THEN N ELSE Rep(TLCEval(MMul(N, G)), G, e-1)
RECURSIVE Of(_, _, _)
Of(N, u, k) == IF k > Len(u) THEN N ELSE Of(Rep(N, IF u[k][2] >= 0 THEN Gens[u[k][1]] ELSE Invs[u[k][1]], AbsI(u[k][2])), u, k+1)
WellDefined == M = Of(MId(DD), NFWord("G", NN, x), 1)
=============================================================================
