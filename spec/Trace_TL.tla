------------------------------ MODULE Trace_TL ------------------------------
(* Recorded operations on diagrams (arguments logged) and on linear         *)
(* combinations (a register machine).                                       *)
EXTENDS TraceBase, TL
VARIABLES regs
vars == <<t, l, regs>>
Init == TraceStart /\ regs = <<>>
R == Ev.res
DOf(x) == Diag(x.top, x.bot, x.seq)
Query(P, clause) == (IF Ok(R) THEN Check(P, clause) ELSE Report("raised " \o R.exc)) /\ UNCHANGED regs
Refused(clause) == Check(~Ok(R), clause) /\ UNCHANGED regs
Flag(b) == IF b THEN 1 ELSE 0
(* --- sequences --- *)
TMatching == Is("matching") /\ Query(R.b = Flag(IsMatching(Ev.s)), "recognition of crossingless matchings")
TDiagNew == Is("newdiag") /\ Check(Ok(R) <=> (Ev.top >= 0 /\ Ev.bot >= 0 /\ Len(Ev.s) = Ev.top + Ev.bot /\ IsMatching(Ev.s)), "sequences accepted as diagrams") /\ UNCHANGED regs
TGenerate == Is("gen") /\ (IF Ev.n < 0 \/ Ev.n % 2 = 1 THEN Refused("matchings of an odd number of points") ELSE
    Query(/\ \A i \in 1..Len(R.ss) : Len(R.ss[i]) = Ev.n /\ IsMatching(R.ss[i])
          /\ Cardinality({R.ss[i] : i \in 1..Len(R.ss)}) = Len(R.ss) /\ Len(R.ss) = CatalanT(Ev.n \div 2), "every matching exactly once"))
BasisOk(B, top, bot, k, count) ==
    /\ \A i \in 1..Len(B) : B[i].top = top /\ B[i].bot = bot /\ IsTL(DOf(B[i])) /\ (k < 0 \/ Through(DOf(B[i])) = k)
    /\ Cardinality({B[i].seq : i \in 1..Len(B)}) = Len(B) /\ Len(B) = count
TBasis == Is("basis") /\ (IF Ev.top < 0 \/ Ev.bot < 0 \/ (Ev.top + Ev.bot) % 2 = 1 THEN Refused("basis of an impossible type") ELSE
    Query(BasisOk(R.B, Ev.top, Ev.bot, -1, CatalanT((Ev.top + Ev.bot) \div 2)), "basis of all diagrams of a type"))
TTableaux == Is("tableaux") /\ (IF Ev.k < 0 \/ Ev.k > Ev.top \/ (Ev.top - Ev.k) % 2 = 1 THEN Refused("impossible number of strands") ELSE
    Query(BasisOk(R.B, Ev.top, Ev.k, Ev.k, CellDim(Ev.top, (Ev.top - Ev.k) \div 2)), "diagrams with all strands going through"))
TCellBasis == Is("cellbasis") /\ (IF Ev.n < 0 \/ Ev.r < 0 THEN Refused("impossible cell")
    ELSE Query(IF Ev.n < 2*Ev.r THEN R.B = <<>> ELSE BasisOk(R.B, Ev.n, Ev.n - 2*Ev.r, Ev.n - 2*Ev.r, CellDim(Ev.n, Ev.r)), "basis of a cell module"))
TCellDim == Is("celldim") /\ (IF Ev.n < 0 \/ Ev.r < 0 \/ Ev.n < 2*Ev.r THEN Refused("impossible cell") ELSE Query(R.d = CellDim(Ev.n, Ev.r), "dimension of a cell module"))
TJones == Is("jones") /\ Query(R.cells = [i \in 1..(Ev.n \div 2 + 1) |-> <<Ev.n, i-1, CellDim(Ev.n, i-1)>>], "cells of the whole representation")
(* --- diagrams --- *)
TCompose == Is("compose") /\ (IF Ev.u.bot # Ev.d.top THEN Refused("composition of incompatible diagrams") ELSE
    LET g == Glue(DOf(Ev.u), DOf(Ev.d)) IN
    Query(/\ \A i \in 1..Len(R.c) : R.c[i].seq = g.d.seq /\ R.c[i].top = g.d.top /\ R.c[i].bot = g.d.bot
          /\ R.loops = [i \in 1..Len(R.c) |-> g.loops + (IF i = Len(R.c) THEN Ev.ub + Ev.db ELSE 0)], "gluing"))
TTensor == Is("tensor") /\ LET g == Tensor(DOf(Ev.a), DOf(Ev.b)) IN
    Query(/\ \A i \in 1..Len(R.c) : DOf(R.c[i]) = g
          /\ R.loops = <<Ev.ab + Ev.bb>>, "side by side")
TFlip == Is("flipd") /\ Query(DOf(R.c) = Flip(DOf(Ev.a)), "reflection")
TThrough == Is("through") /\ Query(R.k = Through(DOf(Ev.a)), "number of through strands")
TClosure == Is("closure") /\ Query(R.k = ClosureLoops(DOf(Ev.a)), "loops of the closure")
TInsert == Is("insert") /\ (IF Ev.i < 0 \/ Ev.i > Len(Ev.a) THEN Refused("insertion out of range") ELSE Query(R.s = Insert(Ev.a, Ev.b, Ev.i), "insertion"))
TIdE == Is("ide") /\ (IF Ev.i >= 0 /\ Ev.i < Ev.n-1 THEN
        Query(/\ \A k \in 1..Len(R.ids) : DOf(R.ids[k]) = IdT(Ev.n)
              /\ \A k \in 1..Len(R.es) : DOf(R.es[k]) = ET(Ev.i, Ev.n), "identity and generators")
    ELSE Refused("generator out of range"))
TBubbles == Is("bubbles") /\ Query(R.b = <<Ev.b, Ev.b + Ev.m, 0, Ev.b + Ev.m>> /\ R.same = 1, "bubbles added and split off")
(* Equality, hashing of diagrams.                                           *)
TSameD == Is("samed") /\ Query(R.eq = Flag(DOf(Ev.a) = DOf(Ev.b)) /\ R.ne = 1 - R.eq /\ (R.eq = 1 => R.h = 1), "equality of diagrams")

(* --- linear combinations --- *)
A == regs[Ev.a]
B == regs[Ev.b]
Put(m, clause) ==
    /\ IF ~Ok(R) THEN Report("raised " \o R.exc)
       ELSE /\ Check(R.top = m.top /\ R.bot = m.bot, clause \o ": type")
            /\ Check(Len(R.ts) = Cardinality(DOMAIN m.f) /\ \A i \in 1..Len(R.ts) : R.ts[i][1] \in DOMAIN m.f /\ OfLog(R.ts[i][2]) = m.f[R.ts[i][1]], clause)
            /\ Check(Cardinality({R.ts[i][1] : i \in 1..Len(R.ts)}) = Len(R.ts), clause \o ": repeated diagram")
            /\ Check(R.zero = Flag(DOMAIN m.f = {}), "recognition of zero")
    /\ regs' = Append(regs, m)
Void == regs' = Append(regs, MorZero(0, 0))
Refuse(clause) == Check(~Ok(R), clause) /\ Void
SameType(a, b) == a.top = b.top /\ a.bot = b.bot
TMNew == Is("mor") /\ (IF \E i \in 1..Len(Ev.ts) : Ev.ts[i][1] # Ev.top \/ Ev.ts[i][2] # Ev.bot THEN Refuse("terms of another type") ELSE
    LET RECURSIVE S(_)
        S(j) == IF j > Len(Ev.ts) THEN MorZero(Ev.top, Ev.bot) ELSE MorAdd(MorScale(OfLog(Ev.ts[j][4]), One(Diag(Ev.top, Ev.bot, Ev.ts[j][3]))), S(j+1))
    IN Put(S(1), "linear combination"))
TMDiag == Is("mdiag") /\ Put(One(DOf(Ev.x)), "morphism of a diagram")
TMId == Is("mid") /\ Put(One(IdT(Ev.n)), "identity morphism")
TME == Is("me") /\ Put(One(ET(Ev.i, Ev.n)), "generator")
TMAdd == Is("madd") /\ (IF SameType(A, B) THEN Put(MorAdd(A, B), "sum") ELSE Refuse("sum of different types"))
TMSub == Is("msub") /\ (IF SameType(A, B) THEN Put(MorAdd(A, MorScale(LInt(-1), B)), "difference") ELSE Refuse("difference of different types"))
TMNeg == Is("mneg") /\ Put(MorScale(LInt(-1), A), "negative")
TMScale == Is("mscale") /\ Put(MorScale(OfLog(Ev.x), A), "scalar multiple")
TMPlus == Is("mplus") /\ (IF A.top = A.bot THEN Put(MorAdd(A, MorScale(OfLog(Ev.x), One(IdT(A.top)))), "sum with a scalar") ELSE Refuse("scalar added outside an algebra"))
TMMul == Is("mmul") /\ (IF A.bot = B.top THEN Put(MorMul(A, B), "product") ELSE Refuse("product of incompatible types"))
TMMulD == Is("mmuld") /\ (IF A.bot = Ev.x.top THEN Put(MorMul(A, One(DOf(Ev.x))), "product with a diagram") ELSE Refuse("product of incompatible types"))
TMFlip == Is("mflip") /\ Put(MorFlip(A, Ev.tw = 1), "reflection")
TMQuot == Is("mquot") /\ Put(MorQuot(A, Ev.k), "quotient by fewer strands")
TMPow == Is("mpow") /\ (IF A.top = A.bot /\ Ev.e >= 0 THEN Put(MorPow(A, Ev.e), "power") ELSE Refuse("impossible power"))
TMTrace == Is("mtrace") /\ Query(OfLog(R.x) = MorTrace(A), "Markov trace")
TMCoef == Is("mcoef") /\ (IF Ev.x.top # A.top \/ Ev.x.bot # A.bot THEN Refused("coefficient of a diagram of another type") ELSE Query(OfLog(R.x) = At(A, Ev.x.seq), "coefficient"))
TMEq == Is("meq") /\ Query(R.eq = Flag(SameType(A, B) /\ A.f = B.f), "equality of morphisms")
TMBasis == Is("mbasis") /\ Query(
    /\ Len(R.ms) = CatalanT((Ev.top + Ev.bot) \div 2)
    /\ \A i \in 1..Len(R.ms) : R.ms[i].top = Ev.top /\ R.ms[i].bot = Ev.bot /\ Len(R.ms[i].ts) = 1 /\ OfLog(R.ms[i].ts[1][2]) = LOne /\ Len(R.ms[i].ts[1][1]) = Ev.top + Ev.bot /\ IsMatching(R.ms[i].ts[1][1])
    /\ Cardinality({R.ms[i].ts[1][1] : i \in 1..Len(R.ms)}) = Len(R.ms), "basis of morphisms")
(* The action on every cell module, and the trace recovered from it.        *)
RECURSIVE TraceSum(_, _)
TraceSum(ms, i) == IF i > Len(ms) THEN LZero ELSE LAdd(LMul(OfLog(ms[i].s), MTrace(OfLogM(ms[i].m))), TraceSum(ms, i+1))
TCells == Is("cells") /\ Query(
    /\ Len(R.ms) = A.top \div 2 + 1
    /\ \A i \in 1..Len(R.ms) : LET n == A.top  r == i-1  M == R.ms[i] IN
        /\ BasisOk([k \in 1..Len(M.B) |-> [top |-> n, bot |-> n-2*r, seq |-> M.B[k]]], n, n-2*r, n-2*r, CellDim(n, r))
        /\ LogShape(M.m) /\ OfLogM(M.m) = CellMatrix(A, n, r, M.B)
        /\ OfLog(M.s) = QuantumInt(n - 2*r + 1)
        /\ M.d = CellDim(n, r)
    /\ TraceSum(R.ms, 1) = MorTrace(A), "action on the cell modules")
TProject == Is("project") /\ Put(MorQuot(A, A.bot - 2*Ev.r), "projection to a cell module")
Next == \/ TMatching \/ TDiagNew \/ TGenerate \/ TBasis \/ TTableaux \/ TCellBasis \/ TCellDim \/ TJones \/ TCompose \/ TTensor \/ TFlip \/ TThrough \/ TClosure \/ TInsert \/ TIdE \/ TBubbles \/ TSameD
        \/ TMNew \/ TMDiag \/ TMId \/ TME \/ TMAdd \/ TMSub \/ TMNeg \/ TMScale \/ TMPlus \/ TMMul \/ TMMulD \/ TMFlip \/ TMQuot \/ TMPow \/ TMTrace \/ TMCoef \/ TMEq \/ TMBasis \/ TCells \/ TProject
Spec == Init /\ [][Next]_vars
=============================================================================
