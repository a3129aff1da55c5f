------------------------------ MODULE Dynnikov ------------------------------
(* Dynnikov coordinates: a faithful action of the braid group on integral   *)
(* laminations of the punctured disc.  d has 2n entries (x1,y1,...,xn,yn);  *)
(* two words denote the same braid iff they send DynId to the same vector.  *)
(* This is independent of any normal form.                                  *)
EXTENDS Integers, Sequences
Pl(x) == IF x > 0 THEN x ELSE 0
Mi(x) == IF x < 0 THEN x ELSE 0
DynId(n) == [i \in 1..(2*n) |-> (i+1) % 2]
DynLetter(d, i, e) ==
  LET x1 == d[2*i+1]  y1 == d[2*i+2]  x2 == d[2*i+3]  y2 == d[2*i+4] IN
  IF e = 1 THEN
    LET z == x1 - Mi(y1) - x2 + Pl(y2) IN
    [d EXCEPT ![2*i+1] = x1 + Pl(y1) + Pl(Pl(y2)-z), ![2*i+2] = y2 - Pl(z),
              ![2*i+3] = x2 + Mi(y2) + Mi(Mi(y1)+z), ![2*i+4] = y1 + Pl(z)]
  ELSE
    LET z == x1 + Mi(y1) - x2 - Pl(y2) IN
    [d EXCEPT ![2*i+1] = x1 - Pl(y1) - Pl(Pl(y2)+z), ![2*i+2] = y2 + Mi(z),
              ![2*i+3] = x2 - Mi(y2) - Mi(Mi(y1)-z), ![2*i+4] = y1 - Mi(z)]
RECURSIVE DynRep(_, _, _), DynFrom(_, _, _)
DynRep(d, i, e) == IF e = 0 THEN d ELSE IF e > 0 THEN DynRep(DynLetter(d, i, 1), i, e-1)
                   ELSE DynRep(DynLetter(d, i, -1), i, e+1)
DynFrom(d, w, k) == IF k > Len(w) THEN d ELSE DynFrom(DynRep(d, w[k][1], w[k][2]), w, k+1)
DynWord(n, w) == DynFrom(DynId(n), w, 1)
=============================================================================
