----------------------------- MODULE NormalForm -----------------------------
(* Left normal forms D^pow f1 ... fk of braids for the Garside structure    *)
(* k = "G" (divisors of the half twist, all permutations) and the dual      *)
(* structure k = "D" (divisors of delta, noncrossing partitions).  Divisors *)
(* are kept as permutations; in both structures the product of simples that *)
(* divides D, complements and conjugation by D are those of permutations.   *)
EXTENDS Noncross

DP(k, n) == IF k = "G" THEN W0(n) ELSE DeltaP(n)
IsSimple(k, w) == IF k = "G" THEN IsPerm(w) ELSE IsDualSimple(w)

(* D^-1 x D, iterated.                                                      *)
TauR1(k, x) == LET d == DP(k, Len(x)) IN PMul(PInv(d), PMul(x, d))
TauOrder(k, n) == IF k = "G" THEN 2 ELSE n
RECURSIVE TauRIter(_, _, _)
TauRIter(k, x, m) == IF m = 0 THEN x ELSE TauRIter(k, TauR1(k, x), m-1)
TauR(k, x, m) == TauRIter(k, x, m % TauOrder(k, Len(x)))

(* Move as much as possible from the left of z to the right of w.           *)
RECURSIVE SlideG(_, _)
SlideG(w, z) ==
    LET A == LDesc(z) \ RDesc(w)
    IN IF A = {} THEN <<w, z>>
       ELSE LET s == CHOOSE s \in A : \A u \in A : s <= u IN SlideG(MulS(w, s), SMul(s, z))
SlideD(w, z) == LET m == MeetP(RightComp(w), z) IN <<PMul(w, m), PMul(PInv(m), z)>>
Slide(k, w, z) == IF k = "G" THEN SlideG(w, z) ELSE SlideD(w, z)

(* The pair needs no move: what it means for w z to be normal.              *)
PairNormal(k, w, z) ==
    IF k = "G" THEN LDesc(z) \subseteq RDesc(w)
    ELSE MeetP(RightComp(w), z) = IdP(Len(w))

RECURSIVE Comb(_, _, _)
Comb(k, F, i) ==
    IF i < 1 THEN F
    ELSE LET p == Slide(k, F[i], F[i+1])
         IN IF p[1] = F[i] THEN F ELSE Comb(k, [F EXCEPT ![i] = p[1], ![i+1] = p[2]], i-1)

IdB(n) == [pow |-> 0, fs |-> <<>>]

(* X . s for a simple s.                                                    *)
MulSimple(k, n, X, s) ==
    IF s = IdP(n) THEN X ELSE
    LET G  == Comb(k, Append(X.fs, s), Len(X.fs))
        G1 == IF G[Len(G)] = IdP(n) THEN SubSeq(G, 1, Len(G)-1) ELSE G
    IN IF Len(G1) > 0 /\ G1[1] = DP(k, n) THEN [pow |-> X.pow+1, fs |-> Tail(G1)]
       ELSE [pow |-> X.pow, fs |-> G1]
(* X . D^m                                                                  *)
MulD(k, n, X, m) == [pow |-> X.pow + m, fs |-> TLCEval([i \in 1..Len(X.fs) |-> TauR(k, X.fs[i], m)])]
(* X . s^-1  =  X . D^-1 . c   where c is the left complement, c s = D.     *)
MulSimpleInv(k, n, X, s) ==
    IF s = IdP(n) THEN X ELSE MulSimple(k, n, MulD(k, n, X, -1), PMul(DP(k, n), PInv(s)))

RECURSIVE MulFs(_, _, _, _, _), MulFsInv(_, _, _, _, _)
MulFs(k, n, X, fs, i) == IF i > Len(fs) THEN X ELSE MulFs(k, n, MulSimple(k, n, X, fs[i]), fs, i+1)
MulFsInv(k, n, X, fs, i) == IF i < 1 THEN X ELSE MulFsInv(k, n, MulSimpleInv(k, n, X, fs[i]), fs, i-1)

MulNF(k, n, X, Y) == MulFs(k, n, MulD(k, n, X, Y.pow), Y.fs, 1)
(* Every factor s becomes D^-1 c with c s = D; then all D move to the left. *)
InvNF(k, n, X) ==
    LET m == Len(X.fs)
        cs == TLCEval([i \in 1..m |-> TauR(k, PMul(DP(k, n), PInv(X.fs[m+1-i])), -(m-i) - X.pow)])
    IN MulFs(k, n, [pow |-> -m - X.pow, fs |-> <<>>], cs, 1)
RECURSIVE PowNF(_, _, _, _)
PowNF(k, n, X, e) == IF e = 0 THEN IdB(n)
    ELSE IF e < 0 THEN PowNF(k, n, InvNF(k, n, X), -e)
    ELSE IF e < 4 THEN MulNF(k, n, PowNF(k, n, X, e-1), X)
    ELSE LET h == TLCEval(PowNF(k, n, X, e \div 2))      \* powers commute
             s == TLCEval(MulNF(k, n, h, h))
         IN IF e % 2 = 0 THEN s ELSE MulNF(k, n, s, X)

(* Letters <<i, e>>, e any integer.                                         *)
RECURSIVE LetterNF(_, _, _, _, _)
LetterNF(k, n, X, i, e) ==
    IF e = 0 THEN X
    ELSE IF e > 0 THEN LetterNF(k, n, MulSimple(k, n, X, Simple(n, i)), i, e-1)
    ELSE LetterNF(k, n, MulSimpleInv(k, n, X, Simple(n, i)), i, e+1)
RECURSIVE WordFrom(_, _, _, _, _)
WordFrom(k, n, X, w, i) == IF i > Len(w) THEN X ELSE WordFrom(k, n, LetterNF(k, n, X, w[i][1], w[i][2]), w, i+1)
WordNF(k, n, w) == WordFrom(k, n, IdB(n), w, 1)
SeqNF(k, n, fs) == MulFs(k, n, IdB(n), fs, 1)

(* A word for a simple, and for a normal form (positive power of D first).  *)
LettersOf(c) == TLCEval([i \in 1..Len(c) |-> <<c[i], 1>>])
SimpleWord(k, s) == IF k = "G" THEN LettersOf(ShortLex(s)) ELSE DualSimpleWord(s)
InvWord(w) == TLCEval([i \in 1..Len(w) |-> <<w[Len(w)+1-i][1], -w[Len(w)+1-i][2]>>])
RECURSIVE RepWord(_, _), CatFs(_, _, _)
RepWord(w, m) == IF m = 0 THEN <<>> ELSE w \o RepWord(w, m-1)
CatFs(k, fs, i) == IF i > Len(fs) THEN <<>> ELSE SimpleWord(k, fs[i]) \o CatFs(k, fs, i+1)
NFWord(k, n, X) ==
    LET d == SimpleWord(k, DP(k, n))
    IN (IF X.pow >= 0 THEN RepWord(d, X.pow) ELSE RepWord(InvWord(d), -X.pow)) \o CatFs(k, X.fs, 1)
(* The same braid in the other structure.                                   *)
Other(k) == IF k = "G" THEN "D" ELSE "G"
RECURSIVE ConvFs(_, _, _, _, _)
ConvFs(k2, n, Y, k, fs) == IF fs = <<>> THEN Y ELSE
    ConvFs(k2, n, WordFrom(k2, n, Y, SimpleWord(k, Head(fs)), 1), k, Tail(fs))
ConvNF(k, n, X) ==
    LET k2 == Other(k)
        dk == WordNF(k2, n, SimpleWord(k, DP(k, n)))
    IN ConvFs(k2, n, PowNF(k2, n, dk, X.pow), k, X.fs)

(* Normality of a whole form, as the documentation promises it.             *)
IsNF(k, n, X) ==
    /\ \A i \in 1..Len(X.fs) : Len(X.fs[i]) = n /\ IsSimple(k, X.fs[i]) /\ X.fs[i] # IdP(n) /\ X.fs[i] # DP(k, n)
    /\ \A i \in 1..(Len(X.fs)-1) : PairNormal(k, X.fs[i], X.fs[i+1])
=============================================================================
