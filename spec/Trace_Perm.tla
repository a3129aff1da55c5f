----------------------------- MODULE Trace_Perm -----------------------------
(* The symmetric group and noncrossing partitions as the code reports them. *)
(* Every event is a query, so the state is only the position in the trace.  *)
EXTENDS TraceBase, Noncross, Dynnikov
vars == <<t, l>>
Init == TraceStart
R == Ev.res
If(op, P) == Is(op) /\ (IF Ok(R) THEN P ELSE Report("raised " \o R.exc))
SameSet(s, S) == Len(s) = Cardinality(S) /\ SeqRange(s) = S
(* Both ways of asking (functions on words, methods of objects) are logged. *)
Both(x, y) == <<x, y>>

(* Everything asked about one permutation w.                                *)
TUnary == If("un", LET w == Ev.w  n == Len(w)  sl == ShortLex(w)  cs == Cycles(w) IN
    /\ Check(IsPerm(w), "harness: not a permutation")
    /\ Check(R.inv = Both(PInv(w), PInv(w)), "inverse")
    /\ Check(R.len = Both(PLen(w), PLen(w)), "length")
    /\ Check(R.par = Parity(w), "parity")
    /\ Check(R.cyc = Both(cs, cs), "disjoint cycles")
    /\ Check(R.ct = Both(CycleType(w), CycleType(w)), "cycle type")
    /\ Check(\A i \in 1..2 : SameSet(R.rd[i], RDesc(w)), "right descent set")
    /\ Check(\A i \in 1..2 : SameSet(R.ld[i], LDesc(w)), "left descent set")
    /\ Check(\A i \in 1..2 : R.ird[i] = [j \in 1..(n-1) |-> IF (j-1) \in RDesc(w) THEN 1 ELSE 0], "right descents one by one")
    /\ Check(\A i \in 1..2 : R.ild[i] = [j \in 1..(n-1) |-> IF (j-1) \in LDesc(w) THEN 1 ELSE 0], "left descents one by one")
    /\ Check(R.sl = Both(sl, sl), "shortest lexicographic word")
    /\ Check(R.aw = [i \in 1..Len(sl) |-> <<sl[i], 1>>], "Artin word of a permutation")
    /\ Check(R.id = (IF w = IdP(n) THEN 1 ELSE 0), "identity recognised")
    /\ Check(R.w0 = (IF w = W0(n) THEN 1 ELSE 0), "longest element recognised")
    /\ Check(R.dc = (IF PermOfPartition(n, PartitionOf(w)) = w THEN 1 ELSE 0), "descending cycles recognised")
    /\ Check(R.pc = (IF IsDualSimple(w) THEN 1 ELSE 0), "parallel descending cycles recognised")
    /\ Check(R.back = <<w, w, w, w>>, "rebuilt from its word, its cycles, its own inverse")
    /\ Check(R.grp = n, "group of a permutation"))
(* Permutations made of two descending cycles.                              *)
TTwo == If("two", Check(Len(R.f) = Len(Ev.ws) /\ \A i \in 1..Len(Ev.ws) : R.f[i] = <<1, IF IsDualSimple(Ev.ws[i]) THEN 1 ELSE 0>>, "two descending cycles: recognised, and as parallel or not"))
(* Products: of words, of objects; mismatched sizes are refused.            *)
TMul == Is("mul") /\ LET x == Ev.x  y == Ev.y IN
    IF Len(x) # Len(y) THEN Check(~Ok(R), "a product of permutations of different sizes was returned")
    ELSE IF Ok(R) THEN Check(R.p = Both(PMul(x, y), PMul(x, y)), "product, composed right to left") ELSE Report("raised " \o R.exc)
TFromCox == Is("cox") /\
    IF \E i \in 1..Len(Ev.c) : Ev.c[i] < 0 \/ Ev.c[i] >= Ev.n - 1 THEN Check(~Ok(R), "a generator out of range was accepted")
    ELSE IF Ok(R) THEN Check(R.p = Both(PermOfCox(Ev.n, Ev.c), PermOfCox(Ev.n, Ev.c)), "permutation of a word in the generators")
    ELSE Report("raised " \o R.exc)
GoodCycle(n, c) == Len(c) = Cardinality(SeqRange(c)) /\ SeqRange(c) \subseteq 0..(n-1)
TFromCycles == Is("cycs") /\
    IF \E i \in 1..Len(Ev.cs) : ~GoodCycle(Ev.n, Ev.cs[i]) THEN Check(~Ok(R), "something that is not a cycle was accepted")
    ELSE IF Ok(R) THEN Check(R.p = ProdCycles(Ev.n, Ev.cs), "permutation of a product of cycles") ELSE Report("raised " \o R.exc)
TTransp == Is("tr") /\
    IF Ev.i < 0 \/ Ev.j < 0 \/ Ev.i >= Ev.n \/ Ev.j >= Ev.n THEN Check(~Ok(R), "a transposition out of range was accepted")
    ELSE IF Ok(R) THEN Check(R.p = Transp(Ev.n, Ev.i, Ev.j), "transposition") ELSE Report("raised " \o R.exc)
(* The words accepted as permutations are exactly the permutations.         *)
TIsPerm == Is("isp") /\
    /\ Check(Ok(R) /\ R.b = (IF IsPerm(Ev.s) THEN 1 ELSE 0), "recognition of permutations")
    /\ Check((Ev.made = 1) <=> IsPerm(Ev.s), "construction of a permutation object")
(* Of all words over an alphabet containing 0..n-1, those accepted.         *)
TAccept == If("accept", Check(SameSet(R.isp, AllPerms(Ev.n)), "the words accepted as permutations") /\ Check(SameSet(R.made, AllPerms(Ev.n)), "the words permutation objects are made of"))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n-1)
TGroup == If("grp", LET n == Ev.n  m == IF n = 0 THEN 0 ELSE n-1 IN
    /\ Check(R.id = Both(IdP(n), IdP(n)), "identity permutation")
    /\ Check(R.w0 = Both(W0(n), W0(n)), "longest element")
    /\ Check(R.gens = [i \in 1..m |-> Simple(n, i-1)], "generators")
    /\ Check(SameSet(R.refl, {Transp(n, p[1], p[2]) : p \in {q \in (0..(n-1)) \X (0..(n-1)) : q[1] < q[2]}}), "reflections")
    /\ Check(Len(R.els) = 0 \/ (Len(R.els) = Fact(n) /\ Cardinality(SeqRange(R.els)) = Len(R.els)
             /\ \A i \in 1..Len(R.els) : Len(R.els[i]) = n /\ IsPerm(R.els[i])), "elements of the group, each once"))

(* ---- noncrossing partitions: components are lists of lists ------------- *)
Blocks(w) == LET bs == SeqOfSets(PartitionOf(w)) IN [i \in 1..Len(bs) |-> SortSet(bs[i])]
Edges(w) == {<<a, b>> \in (0..(Len(w)-1)) \X (0..(Len(w)-1)) : a < b /\ b \in OrbitSet(w, a)}
(* bs: a sequence of sequences; missing points are blocks by themselves.    *)
RECURSIVE Flat(_)
Flat(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Flat(Tail(bs))
Completed(n, bs) == {SeqRange(bs[i]) : i \in 1..Len(bs)} \cup {{x} : x \in (0..(n-1)) \ SeqRange(Flat(bs))}
Valid(n, bs) == LET f == Flat(bs) IN
    /\ Len(f) = Cardinality(SeqRange(f)) /\ SeqRange(f) \subseteq 0..(n-1) /\ IsNoncrossing(Completed(n, bs))
PermOf(n, bs) == PermOfPartition(n, Completed(n, bs))
SameBraid(n, u, v) == DynWord(n, u) = DynWord(n, v)
DeltaWord(n) == [i \in 1..(IF n = 0 THEN 0 ELSE n-1) |-> <<n-1-i, 1>>]

TFromBlocks == Is("blocks") /\
    IF ~Valid(Ev.n, Ev.bs) THEN Check(~Ok(R), "blocks that are no noncrossing partition were accepted")
    ELSE IF Ok(R) THEN Check(R.c = Blocks(PermOf(Ev.n, Ev.bs)), "partition of the given blocks") ELSE Report("raised " \o R.exc)
TFromPerm == Is("fperm") /\
    IF ~IsDualSimple(Ev.w) THEN Check(~Ok(R), "a permutation not made of parallel descending cycles was accepted")
    ELSE IF Ok(R) THEN Check(R.c = Blocks(Ev.w), "partition of the permutation") ELSE Report("raised " \o R.exc)
(* A pairing of 0..2n-1 without crossings.                                  *)
GoodPairing(n, v) == /\ Len(v) = 2*n /\ \A i \in 1..Len(v) : v[i] \in 0..(2*n-1) /\ v[i] # i-1 /\ v[v[i]+1] = i-1
                     /\ \A i, j \in 1..Len(v) : ~(i < j /\ j < v[i]+1 /\ v[i] < v[j])
TPairing == Is("pairing") /\ Check(Ok(R) <=> GoodPairing(Ev.n, Ev.v), "pairings accepted as partitions")
TNPar == If("np", LET n == Ev.n  w == PermOf(n, Ev.bs) IN
    /\ Check(R.c = Blocks(w), "components")
    /\ Check(R.p = w, "permutation")
    /\ Check(SameSet(R.e, Edges(w)), "edges")
    /\ Check(R.back = <<1, 1, 1, 1, 1>>, "not rebuilt unchanged from components, permutation, complements")
    /\ Check(R.lc = LeftComp(w) /\ R.lcb = Blocks(LeftComp(w)), "left complement")
    /\ Check(R.rc = RightComp(w) /\ R.rcb = Blocks(RightComp(w)), "right complement")
    /\ (R.dyn = 1 =>
        /\ Check(SameBraid(n, R.w, DualSimpleWord(w)), "the word is not the braid of the partition")
        /\ Check(SameBraid(n, R.lw \o R.w, DeltaWord(n)), "left complement times partition is not the full cycle braid")
        /\ Check(SameBraid(n, R.w \o R.rw, DeltaWord(n)), "partition times right complement is not the full cycle braid")))
TAll == If("all", LET n == Ev.n IN
    /\ Check(R.cat = Catalan(n), "Catalan number")
    /\ Check(Len(R.cs) = Catalan(n), "number of noncrossing partitions")
    /\ Check(Cardinality(SeqRange(R.cs)) = Len(R.cs), "a partition was listed twice")
    /\ Check(\A i \in 1..Len(R.cs) : LET f == Flat(R.cs[i]) IN Len(f) = n /\ SeqRange(f) = 0..(n-1), "listed partitions cover the points")
    /\ Check(\A i \in 1..Len(R.cs) : IsNoncrossing({SeqRange(R.cs[i][k]) : k \in 1..Len(R.cs[i])}), "listed partitions do not cross")
    /\ Check(R.fin = [i \in 1..n |-> <<i-1>>] /\ R.coa = (IF n = 0 THEN <<>> ELSE <<[i \in 1..n |-> i-1]>>), "finest and coarsest partitions"))
TBkl == If("bkl", Check(SameBraid(Ev.n, R.w, BandWord(Ev.s, Ev.u)), "word of a band generator"))
TComp == Is("comp") /\
    IF Cardinality(SeqRange(Ev.c)) # Len(Ev.c) THEN Check(~Ok(R), "a component with a repeated point was accepted")
    ELSE IF Ok(R) THEN Check(SameBraid(Ev.n, R.w, DualSimpleWord(PermOf(Ev.n, <<Ev.c>>))), "word of a component") ELSE Report("raised " \o R.exc)
TDisjoint == If("disj", Check(R.b = (IF Len(Flat(Ev.bs)) = Cardinality(SeqRange(Flat(Ev.bs))) THEN 1 ELSE 0), "disjointness of components"))
Next == TUnary \/ TTwo \/ TMul \/ TFromCox \/ TFromCycles \/ TTransp \/ TIsPerm \/ TAccept \/ TGroup \/ TFromBlocks \/ TFromPerm \/ TPairing \/ TNPar \/ TAll \/ TBkl \/ TComp \/ TDisjoint
Spec == Init /\ [][Next]_vars
=============================================================================
