------------------------------ MODULE Algebra ------------------------------
(* Division, special polynomials, and matrices [r, c, e] of Laurent         *)
(* polynomials (e is a sequence of r rows of c entries).                    *)
EXTENDS Laurent, FiniteSets
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN AbsI(a) ELSE Gcd(AbsI(b), AbsI(a) % AbsI(b))
DivI(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q     \* exact quotients only
DividesI(b, a) == AbsI(a) % AbsI(b) = 0
(* Long division of polynomials (no negative powers), d nonzero.            *)
RECURSIVE PDivFrom(_, _, _)
PDivFrom(r, d, q) ==
    IF r.c = <<>> \/ LHi(r) < LHi(d) THEN [ok |-> TRUE, q |-> q, r |-> r]
    ELSE LET a == r.c[Len(r.c)]  b == d.c[Len(d.c)] IN
         IF ~DividesI(b, a) THEN [ok |-> FALSE, q |-> q, r |-> r]
         ELSE LET s == LMono(DivI(a, b), LHi(r) - LHi(d)) IN PDivFrom(LSub(r, LMul(d, s)), d, LAdd(q, s))
PDiv(a, d) == PDivFrom(a, d, LZero)
(* Exact quotients of Laurent polynomials, b nonzero.                       *)
LDiv(a, b) == LET R == PDiv(LShift(a, -a.lo), LShift(b, -b.lo)) IN
    IF R.ok /\ R.r.c = <<>> THEN [ok |-> TRUE, q |-> LShift(R.q, a.lo - b.lo)] ELSE [ok |-> FALSE, q |-> LZero]
(* a(x/y) as a reduced fraction <<numerator, denominator>>.                 *)
RECURSIVE IPow(_, _), FracSum(_, _, _, _)
IPow(x, e) == IF e = 0 THEN 1 ELSE x * IPow(x, e-1)
FracSum(c, x, y, i) == IF i > Len(c) THEN 0 ELSE c[i] * IPow(x, i-1) * IPow(y, Len(c)-i) + FracSum(c, x, y, i+1)
Reduce(num, den) == LET g == Gcd(num, den)  s == IF den < 0 THEN -1 ELSE 1 IN
    IF num = 0 THEN <<0, 1>> ELSE <<s * DivI(num, g), s * DivI(den, g)>>
AtFrac(a, x, y) == IF a.c = <<>> THEN <<0, 1>> ELSE
    LET n == FracSum(a.c, x, y, 1)  d == IPow(y, Len(a.c)-1) IN
    IF a.lo >= 0 THEN Reduce(n * IPow(x, a.lo), d * IPow(y, a.lo)) ELSE Reduce(n * IPow(y, -a.lo), d * IPow(x, -a.lo))
(* The quantum integer [k] = (v^k - v^-k)/(v - v^-1).                       *)
QuantumInt(k) == LDiv(LSub(LMono(1, k), LMono(1, -k)), [lo |-> -1, c |-> <<-1, 0, 1>>]).q
(* Cyclotomic polynomials from x^n - 1 = product over the divisors of n.    *)
RECURSIVE Cyc(_), CycDiv(_, _, _)
CycDiv(a, n, d) == IF d >= n THEN a ELSE CycDiv(IF n % d = 0 THEN TLCEval(PDiv(a, Cyc(d)).q) ELSE a, n, d+1)
Cyc(n) == CycDiv(LSub(LMono(1, n), LOne), n, 1)
(* T_k, reduced modulo p (p = 0: exact): T_0, T_1 at once.                  *)
RECURSIVE ChebPair(_, _)
ChebPair(k, p) == IF k = 0 THEN <<LOne, LVar>> ELSE LET s == TLCEval(ChebPair(k-1, p)) IN <<s[2], LMod(LSub(LMul([lo |-> 1, c |-> <<2>>], s[2]), s[1]), p)>>
Cheb(k, p) == ChebPair(k, p)[1]
(* P is the minimal polynomial of 2cos(2 pi/n) iff P(v + 1/v), shifted to   *)
(* constant term, is the n-th cyclotomic polynomial (its square for n < 3). *)
RECURSIVE HornerAt(_, _, _, _)
HornerAt(c, x, m, i) == IF i > Len(c) THEN LZero ELSE LMod(LAdd(LInt(c[i]), LMul(x, HornerAt(c, x, m, i+1))), m)
(* Computed modulo m, to stay within small integers.                        *)
IsMinPolyCos(P, n, m) == LET S == HornerAt([i \in 1..(LHi(P)+1) |-> Coef(P, i-1)], [lo |-> -1, c |-> <<1, 0, 1>>], m, 1)  C == Cyc(n) IN
    P.lo >= 0 /\ P.c # <<>> /\ P.c[Len(P.c)] = 1 /\ S.c # <<>> /\ LShift(S, -S.lo) = LMod(IF n < 3 THEN LMul(C, C) ELSE C, m)

(* Matrices.                                                                *)
MFun(r, c, F(_, _)) == [r |-> r, c |-> c, e |-> TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> F(i, j)])])]
RECURSIVE DotFrom(_, _, _, _, _)
DotFrom(A, B, i, j, k) == IF k > A.c THEN LZero ELSE LAdd(LMul(A.e[i][k], B.e[k][j]), DotFrom(A, B, i, j, k+1))
MMul(A, B) == MFun(A.r, B.c, LAMBDA i, j : DotFrom(A, B, i, j, 1))
MSub(A, B) == MFun(A.r, A.c, LAMBDA i, j : LSub(A.e[i][j], B.e[i][j]))
MScale(k, A) == MFun(A.r, A.c, LAMBDA i, j : LScale(k, A.e[i][j]))
MScalar(n, x) == MFun(n, n, LAMBDA i, j : IF i = j THEN x ELSE LZero)
MId(n) == MScalar(n, LOne)
MTrans(A) == MFun(A.c, A.r, LAMBDA i, j : A.e[j][i])
MMod(A, p) == MFun(A.r, A.c, LAMBDA i, j : LMod(A.e[i][j], p))
RECURSIVE MPow(_, _, _)
MPow(A, e, p) == IF e = 0 THEN MId(A.r) ELSE MMod(MMul(MPow(A, e-1, p), A), p)
RECURSIVE TrFrom(_, _)
TrFrom(A, i) == IF i > A.r THEN LZero ELSE LAdd(A.e[i][i], TrFrom(A, i+1))
MTrace(A) == TrFrom(A, 1)
(* A logged matrix [r, c, e]: e holds rows of <<lo, c>>.                    *)
LogShape(x) == Len(x.e) = x.r /\ \A i \in 1..x.r : Len(x.e[i]) = x.c
OfLogM(x) == MFun(x.r, x.c, LAMBDA i, j : OfLog(x.e[i][j]))
(* Rank over the rationals of an integer matrix given as a list of rows:    *)
(* fraction-free elimination with rows divided by their gcd.                *)
RECURSIVE RowGcd(_, _), RankFrom(_, _, _)
RowGcd(x, i) == IF i > Len(x) THEN 0 ELSE Gcd(x[i], RowGcd(x, i+1))
RNorm(x) == LET g == RowGcd(x, 1) IN IF g = 0 THEN x ELSE TLCEval([i \in 1..Len(x) |-> DivI(x[i], g)])
RankFrom(rows, c, col) ==
    IF rows = <<>> \/ col > c THEN 0
    ELSE LET P == {i \in 1..Len(rows) : rows[i][col] # 0} IN
         IF P = {} THEN RankFrom(rows, c, col+1)
         ELSE LET p == CHOOSE i \in P : \A j \in P : AbsI(rows[i][col]) <= AbsI(rows[j][col])
                  R == [k \in 1..(Len(rows)-1) |-> IF k < p THEN rows[k] ELSE rows[k+1]]
                  E == [k \in 1..Len(R) |-> RNorm([j \in 1..c |-> rows[p][col] * R[k][j] - R[k][col] * rows[p][j]])]
              IN 1 + RankFrom(TLCEval(E), c, col+1)
Rank(rows, c) == RankFrom(TLCEval([i \in 1..Len(rows) |-> RNorm(rows[i])]), c, 1)
=============================================================================
