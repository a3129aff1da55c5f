------------------------------ MODULE Laurent ------------------------------
(* Integer Laurent polynomials [lo, c]: c[1] v^lo + c[2] v^(lo+1) + ...     *)
(* Canonical when c has no zero at either end; zero is [0, <<>>].           *)
EXTENDS Integers, Sequences, TLC
RECURSIVE FirstNZ(_, _), LastNZ(_, _)
FirstNZ(c, i) == IF i > Len(c) THEN i ELSE IF c[i] # 0 THEN i ELSE FirstNZ(c, i+1)
LastNZ(c, i) == IF i < 1 THEN 0 ELSE IF c[i] # 0 THEN i ELSE LastNZ(c, i-1)
LZero == [lo |-> 0, c |-> <<>>]
LTrim(a) == LET f == FirstNZ(a.c, 1) IN
    IF f > Len(a.c) THEN LZero ELSE [lo |-> a.lo + f - 1, c |-> SubSeq(a.c, f, LastNZ(a.c, Len(a.c)))]
LC(lo, c) == LTrim([lo |-> lo, c |-> c])
LInt(k) == LC(0, <<k>>)
LOne == LInt(1)
LVar == [lo |-> 1, c |-> <<1>>]
LMono(k, e) == LC(e, <<k>>)
LHi(a) == a.lo + Len(a.c) - 1
Coef(a, e) == LET i == e - a.lo + 1 IN IF i >= 1 /\ i <= Len(a.c) THEN a.c[i] ELSE 0
LAdd(a, b) ==
    IF a.c = <<>> THEN b ELSE IF b.c = <<>> THEN a ELSE
    LET lo == IF a.lo < b.lo THEN a.lo ELSE b.lo
        hi == IF LHi(a) > LHi(b) THEN LHi(a) ELSE LHi(b)
    IN LTrim([lo |-> lo, c |-> TLCEval([i \in 1..(hi-lo+1) |-> Coef(a, lo+i-1) + Coef(b, lo+i-1)])])
LScale(k, a) == LTrim([lo |-> a.lo, c |-> TLCEval([i \in 1..Len(a.c) |-> k * a.c[i]])])
LNeg(a) == LScale(-1, a)
LSub(a, b) == LAdd(a, LNeg(b))
LShift(a, e) == IF a.c = <<>> THEN a ELSE [lo |-> a.lo + e, c |-> a.c]
RECURSIVE Conv(_, _, _, _)
Conv(a, b, m, i) == IF i > Len(a) THEN 0 ELSE (IF m-i+1 >= 1 /\ m-i+1 <= Len(b) THEN a[i] * b[m-i+1] ELSE 0) + Conv(a, b, m, i+1)
LMul(a, b) == IF a.c = <<>> \/ b.c = <<>> THEN LZero ELSE
    LTrim([lo |-> a.lo + b.lo, c |-> TLCEval([m \in 1..(Len(a.c)+Len(b.c)-1) |-> Conv(a.c, b.c, m, 1)])])
RECURSIVE LPowN(_, _)
LPowN(a, e) == IF e = 0 THEN LOne ELSE LMul(LPowN(a, e-1), a)
LIsUnit(a) == Len(a.c) = 1 /\ a.c[1] \in {1, -1}
LPow(a, e) == IF e >= 0 THEN LPowN(a, e) ELSE LPowN([lo |-> -a.lo, c |-> a.c], -e)      \* units only when e < 0
(* Coefficients reduced into 0..p-1 (p = 0: left alone).                    *)
LMod(a, p) == IF p = 0 THEN a ELSE LTrim([lo |-> a.lo, c |-> TLCEval([i \in 1..Len(a.c) |-> a.c[i] % p])])
(* The value at an integer x of v^(-lo) a (so always an integer).           *)
RECURSIVE HornerFrom(_, _, _)
HornerFrom(c, x, i) == IF i > Len(c) THEN 0 ELSE c[i] + x * HornerFrom(c, x, i+1)
RECURSIVE SubstFrom(_, _, _)
(* a(x) for a Laurent polynomial x (a unit when a has negative powers).     *)
SubstFrom(a, x, i) == IF i > Len(a.c) THEN LZero ELSE
    LAdd(IF a.c[i] = 0 THEN LZero ELSE LScale(a.c[i], LPow(x, a.lo + i - 1)), SubstFrom(a, x, i+1))
LSubst(a, x) == SubstFrom(a, x, 1)
(* Logged polynomials are pairs <<lo, c>>, not necessarily canonical.       *)
OfLog(t) == LC(t[1], t[2])
LogCanonical(t) == OfLog(t) = [lo |-> t[1], c |-> t[2]]
=============================================================================
