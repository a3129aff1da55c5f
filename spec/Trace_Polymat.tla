--------------------------- MODULE Trace_Polymat ---------------------------
(* Register machine over tensors of polynomial matrices: every operation    *)
(* reads registers and (usually) writes a new one.  The specification       *)
(* computes with matrices of polynomials; "see" events compare a register   *)
(* as it stands later with the value it was given.                          *)
EXTENDS TraceBase, Polymat
VARIABLES regs
vars == <<t, l, regs>>
Init == TraceStart /\ regs = <<>>
(* Write the value the specification wants, with the width the code chose   *)
(* when that width is good.                                                 *)
Judge(res, sh, I, J, ms, Wide(_), clause) ==
    IF ~Ok(res) THEN Report("raised " \o res.exc)
    ELSE IF ~LogTensorShape(res.t) THEN Report("malformed tensor")
    ELSE /\ Check(res.t.sh = sh /\ res.t.I = I /\ res.t.J = J, clause \o ": shape")
         /\ (res.t.sh = sh /\ res.t.I = I /\ res.t.J = J) => Check(OfLogT(res.t).ms = ms, clause)
         /\ Check(Wide(res.t.D), clause \o ": width")
Put(sh, I, J, ms, res, Wide(_), clause) ==
    /\ Judge(res, sh, I, J, ms, Wide, clause)
    /\ regs' = Append(regs, Tensor(sh, I, J, IF Ok(res) /\ Wide(res.t.D) THEN res.t.D ELSE Width(ms), ms))
AnyW(d) == TRUE
Refused(res, clause) == Check(~Ok(res), clause)
None == regs' = Append(regs, Tensor(<<>>, 0, 0, 0, <<>>))
A == regs[Ev.a]
B == regs[Ev.b]
TNew == Is("new") /\ regs' = Append(regs, OfLogT(Ev.t))
TSee == Is("see") /\ Check(LogTensorShape(Ev.t) /\ Ev.t.sh = A.sh /\ Ev.t.I = A.I /\ Ev.t.J = A.J /\ Ev.t.D = A.D /\ OfLogT(Ev.t) = A, "a tensor changed after it was made") /\ UNCHANGED regs
TMulE == Is("mul") /\
    IF A.J # B.I \/ ~Compatible(A.sh, B.sh) \/ Ev.q < -1 THEN Refused(Ev.res, "incompatible shapes multiplied") /\ None
    ELSE LET R == TMul(A, B, Ev.q) IN Put(R.sh, A.I, B.J, R.ms, Ev.res, AnyW, "product")
Mats(rs) == LET RECURSIVE C(_)
                C(k) == IF k > Len(rs) THEN <<>> ELSE regs[rs[k]].ms \o C(k+1)
            IN C(1)
TPack == Is("pack") /\
    IF \E k \in 1..Len(Ev.as) : regs[Ev.as[k]].sh # <<>> \/ regs[Ev.as[k]].I # regs[Ev.as[1]].I \/ regs[Ev.as[k]].J # regs[Ev.as[1]].J
    THEN Refused(Ev.res, "matrices of different shapes packed") /\ None
    ELSE LET ms == Mats(Ev.as) IN Put(<<Len(Ev.as)>>, regs[Ev.as[1]].I, regs[Ev.as[1]].J, ms, Ev.res, LAMBDA d : d = Width(ms), "pack")
TConcat == Is("concat") /\
    IF \E k \in 1..Len(Ev.as) : Len(regs[Ev.as[k]].sh) # 1 \/ regs[Ev.as[k]].I # regs[Ev.as[1]].I \/ regs[Ev.as[k]].J # regs[Ev.as[1]].J
    THEN Refused(Ev.res, "batches of different shapes concatenated") /\ None
    ELSE LET ms == Mats(Ev.as) IN Put(<<Len(ms)>>, regs[Ev.as[1]].I, regs[Ev.as[1]].J, ms, Ev.res, AnyW, "concatenate")
TZeropad == Is("zeropad") /\
    IF A.D > Ev.d THEN Refused(Ev.res, "padded to fewer terms") /\ None
    ELSE Put(A.sh, A.I, A.J, A.ms, Ev.res, LAMBDA d : d = Ev.d, "zeropad")
TTrim == Is("trim") /\ Put(A.sh, A.I, A.J, A.ms, Ev.res, LAMBDA d : d = Width(A.ms), "trim")
TTrimLeft == Is("trimleft") /\
    IF Width(A.ms) = 0 THEN regs' = Append(regs, Tensor(A.sh, A.I, A.J, 0, A.ms)) /\ Check(Ok(Ev.res) /\ OfLogT(Ev.res.t).ms = A.ms, "trim_left of zero")
    ELSE LET s == Low(A.ms) IN
         /\ Put(A.sh, A.I, A.J, TLCEval([k \in 1..Len(A.ms) |-> MShift(A.ms[k], -s)]), Ev.res, LAMBDA d : d = A.D - s, "trim_left")
         /\ Check(Ok(Ev.res) => Ev.res.s = s, "trim_left degree")
TProjectivise == Is("projectivise") /\
    IF \E k \in 1..Len(A.ms) : IsZeroM(A.ms[k]) THEN Refused(Ev.res, "zero matrix projectivised") /\ None
    ELSE LET ms == TLCEval(Projective(A.ms)) IN Put(A.sh, A.I, A.J, ms, Ev.res, LAMBDA d : d = Width(ms), "projectivise")
TEye == Is("eye") /\ Put(<<>>, Ev.n, Ev.n, <<MId(Ev.n)>>, Ev.res, LAMBDA d : d = 1, "eye")
TBurau == Is("burau") /\ Put(<<>>, Ev.n - 1, Ev.n - 1, <<BurauGen(Ev.n, Ev.s)>>, Ev.res, AnyW, "Burau generator")
TIndex == Is("index") /\ Put(<<>>, A.I, A.J, <<A.ms[Ev.k]>>, Ev.res, LAMBDA d : d = A.D, "element of a batch")
TToMatrix == Is("tomat") /\ (IF A.sh # <<>> THEN Refused(Ev.res, "a batch converted to a matrix")
    ELSE IF Ok(Ev.res) THEN Check(LogShape(Ev.res.m) /\ Ev.res.m.r = A.I /\ Ev.res.m.c = A.J /\ OfLogM(Ev.res.m) = A.ms[1], "to_matrix") ELSE Report("raised " \o Ev.res.exc)) /\ UNCHANGED regs
(* From exact matrices: with proj a power of v may be taken out.            *)
TFromMatrix == Is("frommat") /\ LET M == OfLogM(Ev.m) IN
    IF ~IsZeroM(M) /\ MVal(M) < 0 /\ ~Ev.proj THEN Refused(Ev.res, "negative powers converted") /\ None
    ELSE LET N == IF ~IsZeroM(M) /\ Ev.proj /\ Ok(Ev.res) /\ LogTensorShape(Ev.res.t) /\ Len(Ev.res.t.ms) = 1 /\ ~IsZeroM(OfLogT(Ev.res.t).ms[1])
                  THEN MShift(M, MVal(OfLogT(Ev.res.t).ms[1]) - MVal(M)) ELSE M IN
         Put(<<>>, M.r, M.c, <<N>>, Ev.res, AnyW, "from_matrix")
(* Statistics, one value for each matrix of the batch; those of the zero    *)
(* matrix are only promised for projlen, efflen and the number of terms.    *)
Each(s, F(_), Dom(_), clause) == Check(s.sh = A.sh /\ Len(s.v) = Len(A.ms) /\ \A k \in 1..Len(A.ms) : Dom(A.ms[k]) => s.v[k] = F(A.ms[k]), clause)
NonZ(M) == ~IsZeroM(M)
All(M) == TRUE
TStats == Is("stats") /\ UNCHANGED regs /\ (IF ~Ok(Ev.res) THEN Report("raised " \o Ev.res.exc) ELSE
    /\ Each(Ev.res.degmax, MDeg, NonZ, "degmax") /\ Each(Ev.res.valmin, MVal, NonZ, "valmin")
    /\ Each(Ev.res.nz, MTerms, All, "nz_terms") /\ Each(Ev.res.projlen, ProjLen, All, "projlen")
    /\ Each(Ev.res.efflen, LAMBDA M : IF IsZeroM(M) THEN 0 ELSE ProjLen(M) - 1, All, "efflen")
    /\ Each(Ev.res.rhogap2, LAMBDA M : ProjLen(M) - 1, NonZ, "rhogap"))
TStartsEnds == Is("startsends") /\ UNCHANGED regs /\ 
    IF \E k \in 1..Len(A.ms) : IsZeroM(A.ms[k]) THEN Refused(Ev.res, "zero matrix has no projective range")
    ELSE IF ~Ok(Ev.res) THEN Report("raised " \o Ev.res.exc) ELSE Each(Ev.res.starts, MVal, All, "start") /\ Each(Ev.res.ends, LAMBDA M : MDeg(M) + 1, All, "end")
TProjrank == Is("projrank") /\ UNCHANGED regs /\ (IF ~Ok(Ev.res) THEN Report("raised " \o Ev.res.exc) ELSE
    IF Ev.terms = 0 THEN Check(\A k \in 1..Len(Ev.res.v.v) : Ev.res.v.v[k] = 0, "projrank of no terms") ELSE
    Each(Ev.res.v, LAMBDA M : ProjRank(M, Ev.terms), All, "projrank"))
Next == TNew \/ TSee \/ TMulE \/ TPack \/ TConcat \/ TZeropad \/ TTrim \/ TTrimLeft \/ TProjectivise \/ TEye \/ TBurau \/ TIndex \/ TToMatrix \/ TFromMatrix \/ TStats \/ TStartsEnds \/ TProjrank
Spec == Init /\ [][Next]_vars
=============================================================================
