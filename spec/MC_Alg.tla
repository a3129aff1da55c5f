------------------------------- MODULE MC_Alg -------------------------------
(* Small-scope laws of the specification's own algebra over all triples of  *)
(* polynomials with DD coefficients in -NEG..HIC (exponents from -LO), and  *)
(* the special polynomials; each pair is replayed in the code.              *)
EXTENDS Algebra, Json
CONSTANTS DD, NEG, HIC, LO, SPECIAL, EMIT
VARIABLES a, b, done
Vecs == [1..DD -> (-NEG)..HIC]
Init == a \in Vecs /\ b \in Vecs /\ done = 0
X == LC(-LO, a)
Y == LC(0, b)
Z == LAdd(LMul(X, X), LOne)
Pr(p) == <<p.lo, p.c>>
Dv == IF Y.c = <<>> THEN <<>> ELSE LET R == LDiv(X, Y) IN IF R.ok THEN <<Pr(R.q)>> ELSE <<>>
Dm == IF Y.c = <<>> THEN <<>> ELSE LET R == PDiv(LC(0, a), Y) IN IF R.ok THEN <<Pr(R.q), Pr(R.r)>> ELSE <<>>
Out == [a |-> a, b |-> b, lo |-> -LO, sum |-> Pr(LAdd(X, Y)), diff |-> Pr(LSub(X, Y)), prod |-> Pr(LMul(X, Y)), cube |-> Pr(LPow(X, 3)),
        div |-> Dv, dm |-> Dm, eq |-> X = Y, at |-> IF LIsUnit(Y) THEN <<Pr(LSubst(X, Y))>> ELSE <<>>]
Next == done = 0 /\ done' = 1 /\ UNCHANGED <<a, b>> /\ (IF EMIT THEN PrintT("EDGE " \o ToJson(Out)) ELSE TRUE)
Spec == Init /\ [][Next]_<<a, b, done>>
Laws ==
    /\ LAdd(X, Y) = LAdd(Y, X) /\ LMul(X, Y) = LMul(Y, X) /\ LSub(LAdd(X, Y), Y) = X
    /\ LMul(LAdd(X, Y), Z) = LAdd(LMul(X, Z), LMul(Y, Z)) /\ LMul(LMul(X, Y), Z) = LMul(X, LMul(Y, Z))
    /\ Y.c # <<>> => LDiv(LMul(X, Y), Y) = [ok |-> TRUE, q |-> X]
    /\ Y.c # <<>> => LET R == PDiv(LC(0, a), Y) IN R.ok => LAdd(LMul(R.q, Y), R.r) = LC(0, a) /\ (R.r.c = <<>> \/ LHi(R.r) < LHi(Y))
    /\ LIsUnit(X) => LMul(LPow(X, -2), LPow(X, 2)) = LOne
    /\ LIsUnit(Y) => LSubst(LMul(X, Z), Y) = LMul(LSubst(X, Y), LSubst(Z, Y))
RECURSIVE ProdCyc(_, _)
ProdCyc(n, d) == IF d > n THEN LOne ELSE IF n % d = 0 THEN LMul(Cyc(d), ProdCyc(n, d+1)) ELSE ProdCyc(n, d+1)
(* The defining identities of the special polynomials.                      *)
ASSUME SPECIAL => \A n \in 1..30 : ProdCyc(n, 1) = LSub(LMono(1, n), LOne)
ASSUME SPECIAL => \A m, k \in 0..4 : LSubst(Cheb(m, 0), Cheb(k, 0)) = Cheb(m * k, 0)
ASSUME SPECIAL => \A n \in 1..12 : LMul(QuantumInt(n), [lo |-> -1, c |-> <<-1, 0, 1>>]) = LSub(LMono(1, n), LMono(1, -n)) /\ QuantumInt(-n) = LNeg(QuantumInt(n)) /\ QuantumInt(0) = LZero
=============================================================================
