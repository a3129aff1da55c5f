------------------------------ MODULE Trace_DB ------------------------------
(* Braids stored as text and in database columns, and read back.            *)
EXTENDS Trace_Braid, Stored
(* Header: num[k][m] lists <<number, divisor>> as found in the stored texts *)
(* of one-factor braids.                                                    *)
NumOf(k, m) == LET P == IF k = "G" THEN Runs[t].num.G[m] ELSE Runs[t].num.D[m] IN
    [i \in 1..Len(P) |-> FsOf(k, m, <<P[i]>>)[1]]
Num(k) == IF k = "G" THEN [m \in 1..Len(Runs[t].num.G) |-> TLCEval(NumOf("G", m))] ELSE [m \in 1..Len(Runs[t].num.D) |-> TLCEval(NumOf("D", m))]
VARIABLE num
dvars == <<t, l, n, reg, num>>
DInit == Init /\ num = TLCEval([k \in {"G", "D"} |-> TLCEval(Num(k))])
KeepN == num' = num
(* The object read back is the object stored.                               *)
Same(r, o) == /\ Agrees(r.b, o)
              /\ Check(r.eq = 1 /\ r.ne = 0, "the object read back is not equal to the one stored")
              /\ Check(r.h = 1, "the object read back hashes differently")
              /\ Check(r.s = 1, "the object read back stores differently")
TStore == Is("store") /\ Query /\ KeepN /\ IF Ok(Ev.res) THEN Same(Ev.res, reg[Ev.a]) ELSE Report("raised " \o Ev.res.exc)
(* A table: register numbers, 0 for NULL.                                   *)
TRows == Is("rows") /\ Query /\ KeepN /\
    IF ~Ok(Ev.res) THEN Report("raised " \o Ev.res.exc)
    ELSE LET q == Ev.res.rows IN
         IF Len(q) # Len(Ev.as) THEN Report("number of rows")
         ELSE \A i \in 1..Len(q) : IF Ev.as[i] = 0 THEN Check(q[i].null = 1, "NULL reads back as something")
                                   ELSE IF q[i].null = 1 THEN Report("a braid reads back as NULL") ELSE Same(q[i], reg[Ev.as[i]])
(* Rows of a table holding the registers Ev.as found by looking a braid up. *)
TFind == Is("find") /\ Query /\ KeepN /\
    IF ~Ok(Ev.res) THEN Report("raised " \o Ev.res.exc)
    ELSE Check(Ev.res.is = SelectSeq([i \in 1..Len(Ev.as) |-> i], LAMBDA i : Ev.as[i] # 0 /\ reg[Ev.as[i]] = reg[Ev.a]), "rows found for a braid")
TDistinct == Is("distinct") /\ Query /\ KeepN /\
    IF ~Ok(Ev.res) THEN Report("raised " \o Ev.res.exc)
    ELSE Check(Ev.res.c = Cardinality({reg[Ev.as[i]] : i \in {i \in 1..Len(Ev.as) : Ev.as[i] # 0}}), "number of distinct stored braids")
(* Every divisor but the identity and D has its own number.                 *)
Nontrivial(k, m) == {w \in {num[k][m][i] : i \in 1..Len(num[k][m])} : w # IdP(m) /\ w # DP(k, m)}
Fact(m) == IF m < 2 THEN 1 ELSE IF m = 2 THEN 2 ELSE IF m = 3 THEN 6 ELSE IF m = 4 THEN 24 ELSE 120
Cat(m) == <<1, 2, 5, 14, 42, 132>>[m]
TNumbers == Is("numbers") /\ Query /\ KeepN /\
    \A k \in {"G", "D"} : \A m \in 2..Len(num[k]) :
        Check(Cardinality(Nontrivial(k, m)) = (IF k = "G" THEN Fact(m) ELSE Cat(m)) - 2 /\ Len(num[k][m]) = (IF k = "G" THEN Fact(m) ELSE Cat(m)), "stored numbers of the divisors")
(* A text: what must be refused, what must be read, and as what.            *)
TParse == Is("parse") /\ Query /\ KeepN /\
    LET D == TLCEval(Denoted(num, Ev.T)) IN
    IF D = <<>> THEN Check(Ev.res.ok = 0, "a text that denotes no braid was read")
    ELSE IF D = <<"?">> THEN Report("group left out")
    ELSE IF Ok(Ev.res) THEN LET b == Ev.res.b IN
        Check(b.k = D[1] /\ b.n = D[2] /\ b.pow = D[3].pow /\ Len(b.fs) = Len(D[3].fs) /\ b.n = D[2] /\ FsOf(D[1], D[2], b.fs) = D[3].fs, "a text was read as another braid")
    ELSE Check(~Canonical(Ev.T), "the text of a braid was refused: " \o Ev.res.exc)
DNext == (Next /\ KeepN) \/ TStore \/ TRows \/ TFind \/ TDistinct \/ TNumbers \/ TParse
DSpec == DInit /\ [][DNext]_dvars
=============================================================================
