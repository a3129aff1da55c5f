---------------------------- MODULE Trace_Tracker ----------------------------
(* Recorded searches.  A run has one tracker; its header names the          *)
(* representation, the method, the capacity, the statistics that make the   *)
(* bucket tags and the rule for weights, and lists the braids and images    *)
(* that occur (events refer to them by number).  After every event that may *)
(* change the tracker all its buckets are logged (snapshot S).  What a full *)
(* bucket keeps is not determined; the specification checks that the        *)
(* observed contents are possible and goes on from them.                    *)
EXTENDS TraceBase, Buckets
VARIABLES n, r, p, tab, D, nf, inf, im, fol, fw, bk, seen
vars == <<t, l, n, r, p, tab, D, nf, inf, im, fol, fw, bk, seen>>
hdr == Runs[t]
OfTensor(a, d) == IF Len(a) # d \/ (\E i \in 1..Len(a) : Len(a[i]) # d) THEN <<>> ELSE
    Norm(TLCEval([j \in 1..d |-> TLCEval([i \in 1..d |-> LC(0, a[i][j])])]), d)
Init == /\ TraceStart /\ n = hdr.n /\ r = hdr.r /\ p = hdr.p
        /\ fol = FollowTables({hdr.kinds[i] : i \in 1..Len(hdr.kinds)}, hdr.n)
        /\ fw = FactorWords(fol)
        /\ bk = [x \in {} |-> NewBucket] /\ seen = [x \in {} |-> 0]
        /\ IF BasisGood(hdr) THEN
              LET T == ActionTable(hdr.n, BasisOf(hdr))  d == Len(hdr.basis)
                  N == TLCEval([i \in 1..Len(hdr.braids) |-> NFOf(hdr.braids[i], hdr.n)]) IN
              /\ tab = T /\ D = d /\ nf = N
              /\ inf = TLCEval([x \in {N[i] : i \in 1..Len(N)} |-> InfoNF(x, hdr.n, T, d, hdr.p)])
              /\ im = TLCEval([i \in 1..Len(hdr.images) |-> OfTensor(hdr.images[i], d)])
           ELSE PrintT("BAD|" \o ToString(hdr.id) \o "|0|basis|the basis is not the set of link states") /\ tab = <<>> /\ D = 0 /\ nf = <<>> /\ inf = <<>> /\ im = <<>>
Keep == UNCHANGED <<n, r, p, tab, D, nf, inf, im, fol, fw>>
Still == Keep /\ UNCHANGED <<bk, seen>>
R == Ev.res
Cap == hdr.cap
Method == hdr.method
Reservoir == Method # "Legacy" /\ Method # "LegacyR"
Info(x) == IF x \in DOMAIN inf THEN inf[x] ELSE InfoNF(x, n, tab, D, p)
(* Statistics of the normal form x with information i.                      *)
StatI(s, x, i) ==
    CASE s = "length" -> i.len [] s = "projlen" -> i.span [] s = "nz_terms" -> i.nz [] s = "nf" -> IF x.k = "G" THEN "GNF" ELSE "DGNF"
      [] s = "degmax" -> i.span - 1 [] s = "valmin" -> 0
TagI(x, i) == TLCEval([j \in 1..Len(hdr.keys) |-> StatI(hdr.keys[j], x, i)])
TagOf(x) == LET i == Info(x) IN TagI(x, i)
(* Weights are logged and kept times 4.                                     *)
WI(x, i) ==
    CASE hdr.weight = "one" -> 4 [] hdr.weight = "projlen" -> 4 * i.span [] hdr.weight = "nz_terms" -> 4 * i.nz
      [] hdr.weight = "mix" -> 2 * ((x.pow + i.nz) % 4) [] hdr.weight = "few" -> IF (x.pow + i.len) % 3 = 0 THEN 8 ELSE 0
WOf(x) == WI(x, Info(x))
(* What the tracker is told to look at.                                     *)
PassesI(i) == LET c == hdr.crit IN i.len >= c.minlen /\ i.len <= c.maxlen /\ i.span <= c.maxproj /\ i.nz <= c.maxnz
Passes(x) == PassesI(Info(x))

(* --- snapshots: res.S = buckets [tag, h (pairs braid, image), cnt, cols,  *)
(* count (-1: not reported), wavg and wseen (times 40000; -1)]              *)
PairOk(b, i) == im[i] = Info(nf[b]).m
HeldSeq(e) == [j \in 1..Len(e.h) |-> nf[e.h[j][1]]]
Near(a, num, den) == LET m == (a * den - num) IN den # 0 /\ (IF m < 0 THEN -m ELSE m) <= den      \* |a - num/den| <= 1
(* Runs are judged for C11 (focus "contents"), C12 ("keeps") or both.       *)
Judge(focus) == hdr.focus \in {focus, "all"}
CheckF(focus, ok, clause) == Check(Judge(focus) => ok, clause)
(* One number per bucket, in units of 1/10000 of a weight.                  *)
EntryOk(e, b) ==
    LET H == HeldSeq(e) IN
    /\ CheckF("contents", \A j \in 1..Len(e.h) : PairOk(e.h[j][1], e.h[j][2]), "a braid held with another image")
    /\ CheckF("contents", \A j \in 1..Len(H) : TagOf(H[j]) = e.tag, "a braid in the bucket of another tag")
    /\ CheckF("contents", \A j \in 1..Len(H) : Reservoir \/ Passes(H[j]), "a braid held that fails the criterion")
    /\ CheckF("contents", Len(H) <= Cap, "a bucket over its capacity")
    /\ CheckF("contents", Len(H) >= 1, "a bucket without braids")
    /\ CheckF("contents", e.cnt = Len(H) /\ e.cols = e.tag, "table of buckets")
    /\ CheckF("contents", e.count = b.count \/ (e.count = -1 /\ Method = "Legacy"), "number of braids offered")
    /\ CheckF("contents", ~Reservoir \/ b.count = 0 \/ (Near(e.wseen, 2500 * b.w, b.count) /\ Near(e.wavg, 2500 * WSum(H, [x \in {H[j] : j \in 1..Len(H)} |-> WOf(x)]), Len(H))), "average weights")
Exp(tag, expect) == IF tag \in DOMAIN expect THEN expect[tag] ELSE NewBucket
SnapOk(S, expect) ==
    LET tags == {S[i].tag : i \in 1..Len(S)} IN
    /\ CheckF("contents", Cardinality(tags) = Len(S), "a tag listed twice")
    /\ CheckF("contents", tags = DOMAIN expect, "the set of buckets")
    /\ \A i \in 1..Len(S) : EntryOk(S[i], Exp(S[i].tag, expect))
Entry1(S, tag) == S[CHOOSE i \in 1..Len(S) : S[i].tag = tag]
Observed(S, expect) == TLCEval([tag \in {S[i].tag : i \in 1..Len(S)} |->
    [held |-> BOfSeq(HeldSeq(Entry1(S, tag))), count |-> Exp(tag, expect).count, w |-> Exp(tag, expect).w]])
Weights(A, s) == TLCEval([x \in DOMAIN A \cup {s[i] : i \in 1..Len(s)} |-> WOf(x)])
(* Reservoir counts that the legacy tracker reports for ever.               *)
CountsOk(rc, want) == CheckF("contents", {<<rc[i][1], rc[i][2]>> : i \in 1..Len(rc)} = {<<tag, want[tag]>> : tag \in DOMAIN want} /\ Len(rc) = Cardinality(DOMAIN want), "reservoir counts")

(* Offers s (sequence of normal forms, in order) to the whole tracker.      *)
AfterOffers(kept) ==
    LET tags == {TagOf(kept[i]) : i \in 1..Len(kept)}
        part == TLCEval([tag \in tags |-> SelectSeq(kept, LAMBDA x : TagOf(x) = tag)])
    IN TLCEval([tag \in DOMAIN bk \cup tags |->
        LET b == Exp(tag, bk) IN
        IF tag \in tags THEN [held |-> b.held, count |-> b.count + Len(part[tag]), w |-> b.w + WSum(part[tag], Weights(BEmpty, part[tag]))] ELSE b])
Settle(expect, S) == /\ bk' = Observed(S, expect)
                     /\ seen' = TLCEval([tag \in DOMAIN seen \cup DOMAIN expect |-> IF tag \in DOMAIN expect THEN expect[tag].count ELSE seen[tag]])
Rc == IF Reservoir THEN TRUE ELSE CountsOk(R.rc, seen')
TOffer == Is("offer") /\ Keep /\
    IF ~Ok(R) THEN Report("raised " \o R.exc) /\ UNCHANGED <<bk, seen>> ELSE
    LET s == TLCEval([i \in 1..Len(Ev.bs) |-> nf[Ev.bs[i]]])
        kept == IF Reservoir THEN s ELSE SelectSeq(s, Passes)
        expect == AfterOffers(kept)
    IN /\ SnapOk(R.S, expect)
       /\ \A i \in 1..Len(R.S) : LET tag == R.S[i].tag  part == SelectSeq(kept, LAMBDA x : TagOf(x) = tag)  old == Exp(tag, bk) IN
            CheckF("keeps", Possible(Method, Cap, old.held, part, Weights(old.held, part), Exp(tag, expect).w, BOfSeq(HeldSeq(R.S[i]))), "what a bucket keeps of the braids offered")
       /\ Settle(expect, R.S)
       /\ Rc
TDiscard == Is("discard") /\ Keep /\
    IF ~Ok(R) THEN Report("raised " \o R.exc) /\ UNCHANGED <<bk, seen>> ELSE
    LET expect == TLCEval([tag \in DOMAIN bk \ {Ev.tag} |-> bk[tag]]) IN
    /\ SnapOk(R.S, expect)
    /\ CheckF("contents", \A i \in 1..Len(R.S) : BOfSeq(HeldSeq(R.S[i])) = Exp(R.S[i].tag, expect).held, "discarding changed another bucket")
    /\ Settle(expect, R.S)
    /\ Rc
(* Offers whose order is not promised: a bag O.  I: what there is to know   *)
(* about each of its members.                                               *)
AfterBag(O, I) ==
    LET tagof == TLCEval([x \in DOMAIN O |-> TagI(x, I[x])])
        tags == {tagof[x] : x \in DOMAIN O}
        part == TLCEval([tag \in tags |-> TLCEval([x \in {x \in DOMAIN O : tagof[x] = tag} |-> O[x]])])
        ow == TLCEval([x \in DOMAIN O |-> O[x] * WI(x, I[x])])
    IN [parts |-> part, expect |-> TLCEval([tag \in DOMAIN bk \cup tags |->
        LET b == Exp(tag, bk) IN IF tag \in tags THEN [held |-> b.held, count |-> b.count + BSize(part[tag]), w |-> b.w + BSum(ow, DOMAIN part[tag])] ELSE b])]
OfferedI(O0, I, clause) ==
    IF ~Ok(R) THEN Report("raised " \o R.exc) /\ UNCHANGED <<bk, seen>> ELSE
    LET O == IF Reservoir THEN O0 ELSE TLCEval([x \in {x \in DOMAIN O0 : PassesI(I[x])} |-> O0[x]])
        A == TLCEval(AfterBag(O, I))
    IN /\ SnapOk(R.S, A.expect)
       /\ \A i \in 1..Len(R.S) : LET tag == R.S[i].tag  old == Exp(tag, bk)  H == BOfSeq(HeldSeq(R.S[i])) IN
            IF tag \in DOMAIN A.parts THEN
                LET W == TLCEval([x \in DOMAIN old.held \cup DOMAIN A.parts[tag] |-> IF x \in DOMAIN I THEN WI(x, I[x]) ELSE WOf(x)])
                IN Check(PossibleAny(Method, Cap, old.held, A.parts[tag], W, H), clause)
            ELSE Check(H = old.held, "a bucket changed that was offered nothing")
       /\ Settle(A.expect, R.S)
       /\ Rc
OfferedB(O, clause) == OfferedI(O, TLCEval([x \in DOMAIN O |-> Info(x)]), clause)
HowMany(k, len) == WaysFrom1(fol, k, len)
(* Extension of a bucket: peyl.bucketing offers the products with suffixes  *)
(* of the full length, the legacy tracker every prefix of them.  Leaves(I)  *)
(* are the extensions by one factor of all in I, a table of information.    *)
TBoot == Is("boot") /\ Keep /\
    LET I == Merge(Levels(fol, fw, tab, D, p, (Root(Ev.k) :> Info(Root(Ev.k))), Ev.upto)) IN OfferedI(BOfSet(DOMAIN I), I, "exhaustive bootstrap")
TExtend == Is("extend") /\ Keep /\
    IF Ev.tag \notin DOMAIN bk THEN Check(~Ok(R), "extension of a bucket that does not exist") /\ UNCHANGED <<bk, seen>>
    ELSE LET held == bk[Ev.tag].held
             LV == TLCEval(Levels(fol, fw, tab, D, p, TLCEval([x \in DOMAIN held |-> Info(x)]), Ev.len))
             I == TLCEval(IF Reservoir THEN LV[Ev.len] ELSE Merge(LV))
         IN OfferedI(ExtensionBag(fol, held, I, Ev.len, Reservoir), I, "extension by suffixes")
TProduct == Is("product") /\ Keep /\
    IF Ev.a \notin DOMAIN bk \/ Ev.b \notin DOMAIN bk THEN Check(~Ok(R), "product of buckets that do not exist") /\ UNCHANGED <<bk, seen>>
    ELSE LET A == bk[Ev.a].held  B == bk[Ev.b].held IN
         OfferedB(ProductBag(n, A, B), "products of two buckets")
TSub == Is("substrings") /\ Keep /\
    IF Ev.tag \notin DOMAIN bk THEN Check(~Ok(R), "substrings of a bucket that does not exist") /\ UNCHANGED <<bk, seen>>
    ELSE OfferedB(SubstringBag(bk[Ev.tag].held), "substrings")
(* --- questions --- *)
Query(P, clause) == (IF Ok(R) THEN Check(P, clause) ELSE Report("raised " \o R.exc)) /\ Still
TStats == Is("bstats") /\
    (IF Ev.tag \notin DOMAIN bk THEN Check(~Ok(R), "statistics of a bucket that does not exist") /\ Still
     ELSE Query(/\ BOfSeq([j \in 1..Len(R.h) |-> nf[R.h[j]]]) = bk[Ev.tag].held
                /\ Len(R.rows) = Len(R.h)
                /\ \A j \in 1..Len(R.rows) : LET i == Info(nf[R.h[j]])  w == R.rows[j] IN w.length = i.len /\ w.projlen = i.span /\ w.nz = i.nz
                     /\ (w.more = <<>> \/ w.more = <<i.span - 1, i.span - 1, 0>>), "statistics of a bucket"))
TValid == Is("validate") /\ Query(R.good = 1, "buckets reported unsound")
(* A bucket entry was spoiled: the validation says so and shows an entry    *)
(* that is wrong, with what it should be.                                   *)
Told == R.told = <<>> \/ \E i \in 1..Len(R.pairs) : R.pairs[i] = <<R.told[1], R.told[3]>> /\ PairOk(R.told[1], R.told[2]) /\ ~PairOk(R.told[1], R.told[3])
Sound == \A i \in 1..Len(R.pairs) : PairOk(R.pairs[i][1], R.pairs[i][2])
TSpoiled == Is("spoiled") /\ Query(R.good = -1 \/ (R.good = 1 /\ Sound) \/ (R.good = 0 /\ ~Sound /\ Told), "validation of a spoiled bucket")
THash == Is("hash") /\ (IF Ev.tag \notin DOMAIN bk THEN Check(~Ok(R), "contents of a bucket that does not exist") /\ Still
    ELSE Query(LET G2 == R.groups IN
        /\ \A i \in 1..Len(G2) : Len(G2[i]) > 0 /\ \A j \in 1..Len(G2[i]) : Info(nf[G2[i][j]]).m = Info(nf[G2[i][1]]).m
        /\ \A i, j \in 1..Len(G2) : i # j => Info(nf[G2[i][1]]).m # Info(nf[G2[j][1]]).m
        /\ LET cat == [q \in UNION {{<<i, j>> : j \in 1..Len(G2[i])} : i \in 1..Len(G2)} |-> nf[G2[q[1]][q[2]]]]
           IN TLCEval([x \in {cat[q] : q \in DOMAIN cat} |-> Cardinality({q \in DOMAIN cat : cat[q] = x})]) = bk[Ev.tag].held, "braids grouped by image"))
(* Large bootstraps and extensions: counts only, and a sample of the pairs. *)
(* lens[i] = [len, total, held, distinct].                                  *)
TBig == Is("big") /\ Query(
    /\ \A i \in 1..Len(R.lens) : LET q == R.lens[i] IN
        Check(q.total = HowMany(Ev.k, q.len), "number of braids offered") /\
        Check(q.held = q.distinct /\ (Ev.full = 1 => q.held = q.total), "each normal form once")
    /\ {R.lens[i].len : i \in 1..Len(R.lens)} = 1..Ev.upto
    /\ \A i \in 1..Len(R.sample) : LET q == R.sample[i] IN PairOk(q.b, q.i) /\ TagOf(nf[q.b]) = q.tag /\ IsNF(Ev.k, n, [pow |-> 0, fs |-> nf[q.b].fs]) /\ nf[q.b].pow = 0, "large bootstrap")
TBigExt == Is("bigext") /\ Query(
    LET k == nf[Ev.from[1]].k
        W == Ways(fol, k, Ev.len)
        tot == SumOver([i \in 1..Len(Ev.from) |-> LET last == LastOf(nf[Ev.from[i]]) IN IF last = <<>> THEN HowMany(k, Ev.len) ELSE W[last]], 1)
    IN
    /\ Check(R.total = (IF Reservoir THEN tot ELSE Ev.len * tot), "number of extensions offered")
    /\ Check(R.distinct = tot /\ R.held = R.distinct, "each extension once")
    /\ \A i \in 1..Len(R.sample) : LET q == R.sample[i]  x == nf[q.b] IN PairOk(q.b, q.i) /\ TagOf(x) = q.tag /\ IsNF(x.k, n, [pow |-> x.pow, fs |-> x.fs])
         /\ \E j \in 1..Len(Ev.from) : LET y == nf[Ev.from[j]] IN y.pow = x.pow /\ y.k = x.k /\ Len(x.fs) = Len(y.fs) + Ev.len /\ SubSeq(x.fs, 1, Len(y.fs)) = y.fs, "large extension")
(* Repeated trials: hits[i] of T trials ended with the i-th offer held.     *)
TTrials == Is("trials") /\ Query(
    \A i \in 1..Len(Ev.ws) : Check(Plausible(R.hits[i], Ev.T, HeldP(Ev.method, Ev.c, Ev.ws, i)), "offer " \o ToString(i) \o " held in " \o ToString(R.hits[i]) \o " of " \o ToString(Ev.T) \o " trials"), "retention")
Next == TOffer \/ TDiscard \/ TBoot \/ TExtend \/ TProduct \/ TSub \/ TStats \/ TValid \/ TSpoiled \/ THash \/ TBig \/ TBigExt \/ TTrials
Spec == Init /\ [][Next]_vars
=============================================================================
