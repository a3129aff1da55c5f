---------------------------- MODULE Trace_Search ----------------------------
(* Whole searches, each in a process of its own, seen from outside: what a  *)
(* search printed and the rows it added to its database.  A run is a        *)
(* sequence of searches with one representation and one database; some of   *)
(* them were killed or made to fail.                                        *)
(*   b bootstrap length, cap bucket size, use / save budgets, step factors  *)
(*   moved at a time, stop whether to stop at a near-kernel braid;          *)
(*   end "self" when the search ended by itself, "cut" otherwise.           *)
EXTENDS TraceBase, Images
VARIABLES n, r, p, tab, D, nf, fol, fw, memo
vars == <<t, l, n, r, p, tab, D, nf, fol, fw, memo>>
hdr == Runs[t]
NoMemo == [key |-> <<>>, at |-> [x \in {} |-> 0]]
Init == /\ TraceStart /\ n = hdr.n /\ r = hdr.r /\ p = hdr.p
        /\ fol = FollowTables({"G"}, hdr.n) /\ fw = FactorWords(fol) /\ memo = NoMemo
        /\ IF BasisGood(hdr) THEN tab = ActionTable(hdr.n, BasisOf(hdr)) /\ D = Len(hdr.basis)
                                  /\ nf = TLCEval([i \in 1..Len(hdr.braids) |-> NFOf(hdr.braids[i], hdr.n)])
           ELSE PrintT("BAD|" \o ToString(hdr.id) \o "|0|basis|the basis is not the set of link states") /\ tab = <<>> /\ D = 0 /\ nf = <<>>
Keep == UNCHANGED <<n, r, p, tab, D, nf, fol, fw>>
R == Ev.res
Lv(I, len) == Levels(fol, fw, tab, D, p, I, len)
None == [x \in {} |-> 0]
(* lev: the tables of the braids held, by length.  Where a bucket overflows *)
(* the table has all the braids that may be held.                           *)
TableAt(lev, L) == IF L \in DOMAIN lev THEN lev[L] ELSE None
Join(A, B) == IF DOMAIN A = {} THEN B ELSE IF DOMAIN B = {} THEN A ELSE TLCEval([x \in DOMAIN A \cup DOMAIN B |-> IF x \in DOMAIN A THEN A[x] ELSE B[x]])
RECURSIVE AddLevels(_, _, _, _)
AddLevels(lev, LV, L, i) == IF i > Len(LV) THEN lev ELSE AddLevels(TLCEval((L+i :> Join(TableAt(lev, L+i), LV[i])) @@ lev), LV, L, i+1)
Above(lev, L) == TLCEval([x \in {x \in DOMAIN lev : x > L} |-> lev[x]])
First(b) == AddLevels([x \in {} |-> None], Lv((Root("G") :> InfoNF(Root("G"), n, tab, D, p)), b), 0, 1)
(* The buckets of a table: <<projective length, braids>>, best first.       *)
BucketsOf(I) == LET g == TLCEval({I[x].span : x \in DOMAIN I})
                    ss == SortSet(g) IN TLCEval([i \in 1..Len(ss) |-> <<ss[i], TLCEval({x \in DOMAIN I : I[x].span = ss[i]})>>])
Least(a, b) == IF a < b THEN a ELSE b
(* How many of the buckets are within the budget.                           *)
RECURSIVE Within(_, _, _, _)
Within(B, cap, budget, i) == IF i > Len(B) THEN Len(B) ELSE LET s == Least(cap, Cardinality(B[i][2])) IN
    IF s > budget THEN i-1 ELSE Within(B, cap, budget - s, i+1)
RECURSIVE Need(_, _, _)
Need(B, cap, i) == IF i < 1 THEN 0 ELSE Least(cap, Cardinality(B[i][2])) + Need(B, cap, i-1)
(* rows: a list for each of the buckets 1..k, in this order.                *)
RowBraids(rows) == {nf[rows[j][6]] : j \in 1..Len(rows)}
RECURSIVE RowsBad(_, _, _, _, _, _)
RowsBad(rows, B, cap, k, i, L) == IF i > k THEN "" ELSE
    LET c == Least(cap, Cardinality(B[i][2]))  here == SubSeq(rows, 1, c)  S == RowBraids(here) IN
    IF \E j \in 1..Len(here) : SubSeq(here[j], 1, 5) # <<n, r, p, L, B[i][1]>> THEN "columns of the rows of length " \o ToString(L)
    ELSE IF ~(S \subseteq B[i][2]) THEN "a braid saved at length " \o ToString(L) \o " that is not in the bucket"
    ELSE IF Cardinality(S) # c THEN "a braid saved twice at length " \o ToString(L)
    ELSE RowsBad(SubSeq(rows, c+1, Len(rows)), B, cap, k, i+1, L)
(* Near-kernel braids among those held.  sure: held; maybe: in a bucket     *)
(* that overflows.                                                          *)
KernelAt(I, cap) == LET K == TLCEval({x \in DOMAIN I : I[x].span = 1}) IN [sure |-> IF Cardinality(K) <= cap THEN K ELSE {}, maybe |-> K]
KernelOf(lev, cap) == [sure |-> UNION {KernelAt(lev[x], cap).sure : x \in DOMAIN lev}, maybe |-> UNION {KernelAt(lev[x], cap).maybe : x \in DOMAIN lev}]
AnnAt(ann, L) == {[k |-> "G", pow |-> ann[j][3], fs |-> ann[j][4]] : j \in {j \in 1..Len(ann) : ann[j][1] = L}}
AnnBad(e, lev, L) == LET K == KernelOf(lev, e.cap)  A == AnnAt(e.res.ann, L) IN
    IF ~(A \subseteq K.maybe) THEN "a braid announced at length " \o ToString(L) \o " that is not held with projective length 1"
    ELSE IF ~(K.sure \subseteq A) THEN "a held braid of projective length 1 not announced at length " \o ToString(L) ELSE ""
(* Follow the search from step L on; rest: the rows not yet accounted for;  *)
(* det: no bucket has overflowed so far, so lev depends on nothing else.    *)
RECURSIVE Follow(_, _, _, _, _, _)
Follow(e, L, lev, rest, det, mm) ==
    LET I == TableAt(lev, L)
        B == TLCEval(BucketsOf(I))
        sv == TLCEval(Within(B, e.cap, e.save, 1))  us == TLCEval(Within(B, e.cap, e.use, 1))
        need == IF e.db = 1 THEN Need(B, e.cap, sv) ELSE 0
        cut == e.res.end = "cut"
        K == TLCEval(KernelOf(lev, e.cap))
        mm1 == IF det THEN TLCEval((L :> lev) @@ mm) ELSE mm
        res(why) == [bad |-> why, memo |-> mm1]
    IN
    IF cut /\ rest = <<>> THEN res("")
    ELSE IF \A x \in DOMAIN lev : DOMAIN lev[x] = {} THEN res(IF rest = <<>> THEN "" ELSE "rows saved of lengths that are not held")
    ELSE IF Len(rest) < need THEN res("length " \o ToString(L) \o " saved in part or not at all")
    ELSE LET rows == SubSeq(rest, 1, need)  rb == RowsBad(rows, B, e.cap, IF e.db = 1 THEN sv ELSE 0, 1, L)  ab == AnnBad(e, lev, L) IN
         IF rb # "" THEN res(rb) ELSE IF ab # "" THEN res(ab)
         ELSE IF e.stop = 1 /\ K.sure # {} THEN res(IF Len(rest) > need THEN "rows saved after the step that stops" ELSE
                    IF \E j \in 1..Len(e.res.ann) : e.res.ann[j][1] > L THEN "the search went on after the step that stops" ELSE "")
         ELSE IF e.stop = 1 /\ K.maybe # {} THEN res("")
         ELSE IF \E i \in 1..us : Cardinality(B[i][2]) > e.cap /\ (i > sv \/ e.db = 0) THEN res("")
         ELSE LET over == \E i \in 1..us : Cardinality(B[i][2]) > e.cap
                  S == RowBraids(rows)
                  held == UNION {IF Cardinality(B[i][2]) > e.cap THEN B[i][2] \cap S ELSE B[i][2] : i \in 1..us}
                  nx == IF det /\ ~over /\ (L+1) \in DOMAIN mm THEN mm[L+1]
                        ELSE Above(AddLevels(lev, Lv(TLCEval([x \in held |-> I[x]]), e.step), L, 1), L)
              IN Follow(e, L+1, nx, SubSeq(rest, need+1, Len(rest)), det /\ ~over, mm1)
Key(e) == <<e.b, e.cap, e.use, e.step>>
TSearch == Is("search") /\ Keep /\
    IF ~Ok(R) THEN Report("raised " \o R.exc) /\ UNCHANGED memo ELSE
    LET start == Ev.b - Ev.step + 1
        mm == IF memo.key = Key(Ev) THEN memo.at ELSE [x \in {} |-> None]
        lev == TLCEval(IF start \in DOMAIN mm THEN mm[start] ELSE First(Ev.b))
        f == TLCEval(Follow(Ev, start, lev, R.rows, TRUE, mm))
    IN /\ Check(R.kept = 1, "rows of earlier searches changed")
       /\ Check(f.bad = "", f.bad)
       /\ memo' = [key |-> Key(Ev), at |-> f.memo]
(* Some searches are not followed: only that earlier rows stay.             *)
TOther == Is("other") /\ Keep /\ UNCHANGED memo /\ (IF ~Ok(R) THEN Report("raised " \o R.exc) ELSE Check(R.kept = 1, "rows of earlier searches changed"))
Next == TSearch \/ TOther
Spec == Init /\ [][Next]_vars
=============================================================================
