----------------------------- MODULE Trace_Alg -----------------------------
(* Register machine over Laurent polynomials, integer polynomials and       *)
(* matrices of either.  A run has a modulus q: with q > 0 the log holds     *)
(* coefficients modulo q of exact results (so that large integers can be    *)
(* followed), with q = 0 it holds them exactly.  Registers are              *)
(* [k, v] with k = "L" (Laurent), "P" (polynomial), "M" (matrix).           *)
EXTENDS TraceBase, Algebra
VARIABLES regs
vars == <<t, l, regs>>
Q == Runs[t].q
Init == TraceStart /\ regs = <<>>
A == regs[Ev.a]
B == regs[Ev.b]
Scal(k, v) == [k |-> k, v |-> LMod(v, Q)]
Mtx(v) == [k |-> "M", v |-> MMod(v, Q)]
Lost == regs' = Append(regs, [k |-> "X", v |-> LZero])
(* A logged polynomial is right when it denotes v and (exactly logged) is   *)
(* canonical.                                                               *)
Lowest(k, x) == IF k = "L" THEN LogCanonical(x) ELSE x[1] = 0 /\ (x[2] = <<>> \/ x[2][Len(x[2])] # 0)
Same(x, v) == LMod(OfLog(x), Q) = v
PutS(k, v, clause) == LET r == Scal(k, v) IN
    /\ IF ~Ok(Ev.res) THEN Report("raised " \o Ev.res.exc) ELSE Check(Same(Ev.res.v, r.v), clause) /\ Check(Q > 0 \/ Lowest(k, Ev.res.v), "a polynomial is not in lowest form")
    /\ regs' = Append(regs, r)
PutM(v, clause) == LET r == Mtx(v) IN
    /\ IF ~Ok(Ev.res) THEN Report("raised " \o Ev.res.exc)
       ELSE Check(LogShape(Ev.res.m) /\ Ev.res.m.r = r.v.r /\ Ev.res.m.c = r.v.c /\ MMod(OfLogM(Ev.res.m), Q) = r.v, clause)
    /\ regs' = Append(regs, r)
Refuse(clause) == Check(~Ok(Ev.res), clause) /\ Lost
RefuseQ(clause) == Check(~Ok(Ev.res), clause) /\ UNCHANGED regs
Query(P(_), clause) == (IF ~Ok(Ev.res) THEN Report("raised " \o Ev.res.exc) ELSE Check(P(Ev.res), clause)) /\ UNCHANGED regs

(* --- polynomials of both kinds: kk = "L" or "P" ---                       *)
TNew == Is("new") /\ PutS(Ev.kk, LC(Ev.lo, Ev.c), "construction")
TSAdd == Is("add") /\ PutS(A.k, LAdd(A.v, B.v), "sum")
TSSub == Is("sub") /\ PutS(A.k, LSub(A.v, B.v), "difference")
TSMul == Is("mul") /\ PutS(A.k, LMul(A.v, B.v), "product")
TSNeg == Is("neg") /\ PutS(A.k, LNeg(A.v), "negative")
(* With the integer Ev.i on the side Ev.side.                               *)
TSInt == Is("int") /\ PutS(A.k, CASE Ev.f = "add" -> LAdd(A.v, LInt(Ev.i)) [] Ev.f = "sub" -> LSub(A.v, LInt(Ev.i))
                                   [] Ev.f = "rsub" -> LSub(LInt(Ev.i), A.v) [] Ev.f = "mul" -> LScale(Ev.i, A.v), "operation with an integer")
TSPow == Is("pow") /\ IF Ev.e < 0 /\ ~(A.k = "L" /\ LIsUnit(A.v)) THEN Refuse("inverse of a non-unit")
                      ELSE LET RECURSIVE Pw(_)
                               Pw(e) == IF e = 0 THEN LOne ELSE LMod(LMul(Pw(e-1), A.v), Q)
                           IN PutS(A.k, IF Ev.e >= 0 THEN Pw(Ev.e) ELSE LPow(A.v, Ev.e), "power")
TSDiv == Is("div") /\ IF B.v.c = <<>> THEN Refuse("quotient by zero")
                      ELSE LET R == IF A.k = "L" THEN LDiv(A.v, B.v) ELSE LET S == PDiv(A.v, B.v) IN [ok |-> S.ok /\ S.r.c = <<>>, q |-> S.q] IN
                      IF R.ok THEN PutS(A.k, R.q, "quotient") ELSE Refuse("inexact quotient")
(* Exact quotient when the numerator is known to be B * C.                  *)
TSDivMod == Is("divmod") /\ IF B.v.c = <<>> THEN RefuseQ("quotient by zero") ELSE LET R == PDiv(A.v, B.v) IN
    IF R.ok THEN Query(LAMBDA r : OfLog(r.q) = R.q /\ OfLog(r.r) = R.r /\ Lowest("P", r.q) /\ Lowest("P", r.r), "quotient and remainder") ELSE RefuseQ("no integral quotient")
TSMap == Is("map") /\ PutS(A.k, LET f(c) == CASE Ev.f = "mod" -> c % Ev.i [] Ev.f = "mul" -> Ev.i * c [] Ev.f = "sq" -> c * c IN
    LC(A.v.lo, TLCEval([i \in 1..Len(A.v.c) |-> f(A.v.c[i])])), "map over coefficients")
TSAt == Is("at") /\ (IF A.v.c # <<>> /\ A.v.lo < 0 /\ ~LIsUnit(B.v) THEN Refuse("negative power of a non-unit")
                     ELSE PutS(A.k, LSubst(A.v, B.v), "evaluation at a polynomial"))
TSFrac == Is("frac") /\ Query(LAMBDA r : r.v = AtFrac(A.v, Ev.x, Ev.y), "evaluation at a number")
TQuantum == Is("quantum") /\ PutS("L", QuantumInt(Ev.i), "quantum integer")
TCoerce == Is("coerce") /\ PutS("L", LInt(Ev.i), "coercion of an integer")
(* Special polynomials.                                                     *)
TCyc == Is("cyc") /\ (IF Ev.n <= 0 THEN Refuse("cyclotomic polynomial of a number below 1") ELSE PutS("P", Cyc(Ev.n), "cyclotomic polynomial"))
TCheb == Is("cheb") /\ (IF Ev.n < 0 THEN Refuse("Chebyshev polynomial of a negative number") ELSE PutS("P", Cheb(Ev.n, Q), "Chebyshev polynomial"))
TMinCos == Is("mincos") /\ (IF Ok(Ev.res) /\ IsMinPolyCos(OfLog(Ev.res.v), Ev.n, 10007) THEN regs' = Append(regs, Scal("P", OfLog(Ev.res.v)))
                            ELSE Report("minimal polynomial of 2cos(2 pi/n)") /\ Lost)
(* What the accessors say.                                                  *)
TSee == Is("see") /\ Query(LAMBDA r :
    /\ Same(r.v, A.v)
    /\ Q > 0 \/ (/\ r.zero = (A.v.c = <<>>) /\ (A.v.c # <<>> => r.deg = LHi(A.v))
                 /\ (A.k = "L" => r.unit = LIsUnit(A.v) /\ (A.v.c # <<>> => r.val = A.v.lo))
                 /\ (A.k = "P" /\ A.v.c = <<>> => r.deg = -1)), "accessors")
RECURSIVE TermSum(_, _)
TermSum(ts, i) == IF i > Len(ts) THEN LZero ELSE LAdd(LMono(ts[i][1], ts[i][2]), TermSum(ts, i+1))
TPrint == Is("print") /\ Query(LAMBDA r : \A k \in 1..Len(r.ts) : LMod(TermSum(r.ts[k], 1), Q) = A.v, "printed form")
(* Equality and hashing, on registers of one kind, exact runs only.         *)
TEq == Is("eq") /\ Query(LAMBDA r : LET e == A.v = B.v IN r.eq = e /\ r.ne = ~e /\ (A.k = "P" \/ ((e => r.hash) /\ r.in = e)), "equality")

(* --- matrices ---                                                         *)
Grid(rows) == [r |-> Len(rows), c |-> IF rows = <<>> THEN 0 ELSE Len(rows[1]), e |-> rows]
TMNew == Is("mnew") /\ PutM(OfLogM(Ev.m), "matrix construction")
TMBad == Is("mbad") /\ RefuseQ("ill-formed matrix accepted")
TMConst == Is("mconst") /\ PutM(CASE Ev.f = "identity" -> MId(Ev.n) [] Ev.f = "zero" -> MFun(Ev.n, Ev.k, LAMBDA i, j : LZero)
                                [] Ev.f = "scalar" -> MScalar(Ev.n, OfLog(Ev.x)) [] Ev.f = "coord" -> MFun(Ev.n, 1, LAMBDA i, j : IF i = Ev.k + 1 THEN LOne ELSE LZero), "special matrix")
TMMul == Is("mmul") /\ IF A.v.c # B.v.r THEN Refuse("incompatible matrices multiplied") ELSE PutM(MMul(A.v, B.v), "matrix product")
TMSub == Is("msub") /\ IF A.v.r # B.v.r \/ A.v.c # B.v.c THEN Refuse("incompatible matrices subtracted") ELSE PutM(MSub(A.v, B.v), "matrix difference")
TMScale == Is("mscale") /\ PutM(MScale(Ev.i, A.v), "integer multiple of a matrix")
TMPow == Is("mpow") /\ IF A.v.r # A.v.c \/ Ev.e < 0 THEN Refuse("power of a matrix that has none") ELSE PutM(MPow(A.v, Ev.e, Q), "matrix power")
TMTrans == Is("mtrans") /\ PutM(MTrans(A.v), "transpose")
TMMap == Is("mmap") /\ PutM(MScale(Ev.i, A.v), "map over entries")
TMRow == Is("mrow") /\ IF Ev.i < 0 \/ Ev.i >= A.v.r THEN Refuse("row out of bounds") ELSE PutM(MFun(1, A.v.c, LAMBDA i, j : A.v.e[Ev.i + 1][j]), "row")
TMCol == Is("mcol") /\ IF Ev.i < 0 \/ Ev.i >= A.v.c THEN Refuse("column out of bounds") ELSE PutM(MFun(A.v.r, 1, LAMBDA i, j : A.v.e[i][Ev.i + 1]), "column")
TMTrace == Is("mtrace") /\ IF A.v.r # A.v.c THEN RefuseQ("trace of a non-square matrix") ELSE Query(LAMBDA r : Same(r.v, LMod(MTrace(A.v), Q)), "trace")
TMAt == Is("mat") /\ IF Ev.i < 0 \/ Ev.i >= A.v.r \/ Ev.j < 0 \/ Ev.j >= A.v.c THEN RefuseQ("entry out of bounds")
                     ELSE Query(LAMBDA r : Same(r.v, A.v.e[Ev.i+1][Ev.j+1]), "entry")
RECURSIVE Flat(_, _)
Flat(e, i) == IF i > Len(e) THEN <<>> ELSE e[i] \o Flat(e, i+1)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
TMSee == Is("msee") /\ Query(LAMBDA r :
    /\ MMod(OfLogM(r.m), Q) = A.v /\ LogShape(r.m) /\ r.square = (A.v.r = A.v.c) /\ (Q > 0 \/ ~r.pure \/ r.symm = (A.v.r = A.v.c /\ MTrans(A.v) = A.v))
    /\ Len(r.rows) = A.v.r /\ \A i \in 1..A.v.r : Len(r.rows[i]) = A.v.c /\ \A j \in 1..A.v.c : Same(r.rows[i][j], A.v.e[i][j])
    /\ LET F == Flat(A.v.e, 1)  G == TLCEval([i \in 1..Len(r.ents) |-> LMod(OfLog(r.ents[i]), Q)]) IN
       Len(F) = Len(G) /\ \A i \in 1..Len(F) : Count(F, F[i]) = Count(G, F[i]), "matrix accessors")
TMPrint == Is("mprint") /\ Query(LAMBDA r : \A k \in 1..Len(r.g) : Len(r.g[k]) = A.v.r /\ \A i \in 1..A.v.r : Len(r.g[k][i]) = A.v.c /\
    \A j \in 1..A.v.c : LMod(TermSum(r.g[k][i][j], 1), Q) = A.v.e[i][j], "printed matrix")
Next == \/ TNew \/ TSAdd \/ TSSub \/ TSMul \/ TSNeg \/ TSInt \/ TSPow \/ TSDiv \/ TSDivMod \/ TSMap \/ TSAt \/ TSFrac \/ TQuantum \/ TCoerce
        \/ TCyc \/ TCheb \/ TMinCos \/ TSee \/ TPrint \/ TEq
        \/ TMNew \/ TMBad \/ TMConst \/ TMMul \/ TMSub \/ TMScale \/ TMPow \/ TMTrans \/ TMMap \/ TMRow \/ TMCol \/ TMTrace \/ TMAt \/ TMSee \/ TMPrint
Spec == Init /\ [][Next]_vars
=============================================================================
