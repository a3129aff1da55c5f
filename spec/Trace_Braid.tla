---------------------------- MODULE Trace_Braid ----------------------------
(* Validates recorded runs of the real braid objects against BraidMachine.  *)
EXTENDS TraceBase, BraidMachine, Enumerate, Dynnikov
vars == <<t, l, n, reg>>
Init == TraceStart /\ n = Runs[t].n /\ reg = <<>>

(* Logged dual factors are lists of blocks, Garside factors permutations.   *)
FsOf(k, m, fs) == [i \in 1..Len(fs) |-> IF k = "G" THEN fs[i] ELSE PermOfBlocks(m, fs[i])]
SimplesIn(k, ss) == FsOf(k, n, ss)
SameFs(k, fs, X) == Len(fs) = Len(X.fs) /\ \A i \in 1..Len(fs) : Len(fs[i]) >= 0 /\ FsOf(k, n, <<fs[i]>>)[1] = X.fs[i]
Agrees(r, o) ==
    /\ Check(r.k = o.k, "kind of normal form")
    /\ Check(r.n = n, "number of strands")
    /\ Check(r.pow = o.pow /\ r.pow2 = o.pow /\ r.powd = o.pow, "power of the Garside element")
    /\ Check(r.len = Len(o.fs), "canonical length")
    /\ Check(r.sup = o.pow + Len(o.fs), "supremum")
    /\ Check(SameFs(o.k, r.fs, o), "canonical factors")
    /\ Check(r.fs2 = r.fs /\ r.fsd = r.fs, "factor access")
    /\ Check(r.fsr = r.fs, "factor access from the end")
Res == IF Ok(Ev.res) THEN Agrees(Ev.res, reg'[Len(reg')]) ELSE Report("raised " \o Ev.res.exc)

TIdentity == Is("id")    /\ MakeIdentity(Ev.k) /\ Res
TWord     == Is("word")  /\ FromWord(Ev.k, Ev.w) /\ Res
TSimples  == Is("seq")   /\ FromSimples(Ev.k, SimplesIn(Ev.k, Ev.ss)) /\ Res
TPair     == Is("pair")  /\ FromPair(Ev.k, Ev.p, SimplesIn(Ev.k, Ev.ss)) /\ Res
TBand     == Is("band")  /\ Band(Ev.s, Ev.u) /\ Res
TMul      == Is("mul")   /\ Multiply(Ev.a, Ev.b) /\ Res
TInv      == Is("inv")   /\ Invert(Ev.a) /\ Res
TPow      == Is("pow")   /\ Power(Ev.a, Ev.e) /\ Res
TSub      == Is("sub")   /\ Substring(Ev.a, Ev.i, Ev.j) /\ Res
TConv     == Is("conv")  /\ Convert(Ev.a) /\ Res

(* A written word denotes the braid it was written from.                    *)
Denotes(w, o) == WordNF(o.k, n, w) = [pow |-> o.pow, fs |-> o.fs]
TOut == Is("out") /\ Query /\
    IF Ok(Ev.res) THEN Check(Denotes(Ev.res.w, reg[Ev.a]), "written Artin word denotes the braid") ELSE Report("raised " \o Ev.res.exc)
MagmaWord(m) == [i \in 1..Len(m) |-> <<(IF m[i] > 0 THEN m[i] ELSE -m[i]) - 1, IF m[i] > 0 THEN 1 ELSE -1>>]
TMagma == Is("magma") /\ Query /\
    IF Ok(Ev.res) THEN Check((\A i \in 1..Len(Ev.res.w) : Ev.res.w[i] # 0 /\ Ev.res.w[i] < n /\ Ev.res.w[i] > -n)
                             /\ Denotes(MagmaWord(Ev.res.w), reg[Ev.a]), "Magma word denotes the braid")
    ELSE Report("raised " \o Ev.res.exc)
(* The word of a permutation or noncrossing partition is its simple braid.  *)
TSimpleOut == Is("sout") /\ Query /\
    IF Ok(Ev.res) THEN Check(WordNF(Ev.k, n, Ev.res.w) = SeqNF(Ev.k, n, SimplesIn(Ev.k, <<Ev.s>>)), "word of a divisor denotes it")
    ELSE Report("raised " \o Ev.res.exc)

(* Enumerations: res has pows, fss (same order), ks.                        *)
AsNF(k, r, i) == [pow |-> r.pows[i], fs |-> FsOf(k, n, r.fss[i])]
AllAs(k, r) == TLCEval([i \in 1..Len(r.fss) |-> AsNF(k, r, i)])
Enumerated(k, p, len, last, r, total) ==
    LET L == AllAs(k, r) IN
    /\ Check(\A i \in 1..Len(L) : L[i].pow = p, "enumerated power")
    /\ Check(\A i \in 1..Len(L) : Len(L[i].fs) = len, "enumerated length")
    /\ Check(\A i \in 1..Len(L) : IsNF(k, n, L[i]) /\ (Len(L[i].fs) > 0 /\ last # <<>> => PairNormal(k, last, L[i].fs[1])), "enumerated forms are normal")
    /\ Check(Cardinality({L[i] : i \in 1..Len(L)}) = Len(L), "enumerated once")
    /\ Check(Len(L) = total, "enumeration is complete")
    /\ Check(\A i \in 1..Len(r.ks) : r.ks[i] = k, "enumerated kind")
TEnum == Is("enum") /\ Query /\
    IF Ok(Ev.res) THEN Enumerated(Ev.k, Ev.p, Ev.len, <<>>, Ev.res, CountNF(Ev.k, n, Ev.len, 2000000000 \div 2)) ELSE Report("raised " \o Ev.res.exc)
TSuffixes == Is("suff") /\ Query /\
    IF Ok(Ev.res) THEN LET o == reg[Ev.a] IN
        Enumerated(o.k, 0, Ev.len, LastOf(o), Ev.res, CountFollow(o.k, n, LastOf(o), Ev.len, 1000000000))
    ELSE Report("raised " \o Ev.res.exc)
TDesc == Is("desc") /\ Query /\
    IF Ok(Ev.res) THEN LET o == reg[Ev.a]
                           L == AllAs(o.k, Ev.res)
                           F == {[pow |-> o.pow, fs |-> Append(o.fs, y)] : y \in Followers(o.k, n, LastOf(o))} IN
        /\ Check({L[i] : i \in 1..Len(L)} = F, "descendants are the one-factor extensions")
        /\ Check(Len(L) = Cardinality(F), "each descendant once")
    ELSE Report("raised " \o Ev.res.exc)
(* Counts are logged modulo two primes.                                     *)
TCount == Is("count") /\ Query /\
    IF Ok(Ev.res) THEN Check(\A i \in 1..Len(Ev.res.mods) : CountNF(Ev.k, n, Ev.len, Ev.res.mods[i][1]) = Ev.res.mods[i][2], "count of normal forms")
    ELSE Report("raised " \o Ev.res.exc)
TSample == Is("sample") /\ Query /\
    IF Ok(Ev.res) THEN LET X == [pow |-> Ev.res.pow, fs |-> FsOf(Ev.k, n, Ev.res.fs)] IN
        /\ Check(Ev.res.k = Ev.k /\ Ev.res.n = n, "sample kind")
        /\ Check(X.pow = 0, "sample has no Garside power")
        /\ Check(Len(X.fs) = Ev.len, "sample length")
        /\ Check(IsNF(Ev.k, n, X), "sample is normal")
    ELSE Report("raised " \o Ev.res.exc)
(* cnt: sequence of <<previous factors (none or one), next factor, count>>  *)
(* seen at one position of many samples.                                    *)
Within(c, tot, den) == LET dif == c*den - tot IN dif < 40000 /\ dif > -40000 /\ dif*dif <= 49*tot*den
RECURSIVE SumSet(_, _)
SumSet(c, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN c[i][3] + SumSet(c, I \ {i})
TDist == Is("dist") /\ Query /\
    IF Ok(Ev.res) THEN
        LET c == Ev.res.cnt
            N == 1..Len(c)
            S == TLCEval(Proper(Ev.k, n))
            Prev == TLCEval([i \in N |-> IF c[i][1] = <<>> THEN <<>> ELSE FsOf(Ev.k, n, c[i][1])[1]])
            Nxt == TLCEval([i \in N |-> FsOf(Ev.k, n, <<c[i][2]>>)[1]])
            Allowed(x) == TLCEval(IF x = <<>> THEN S ELSE {y \in S : PairNormal(Ev.k, x, y)})
            OkP(x) == x = <<>> \/ x \in S
            Uniform(x) == LET I == TLCEval({i \in N : Prev[i] = x})
                              tot == TLCEval(SumSet(c, I))
                              A == Allowed(x)
                          IN /\ {Nxt[i] : i \in I} \subseteq A
                             /\ tot < 30*Cardinality(A) \/ ({Nxt[i] : i \in I} = A /\ \A i \in I : Within(c[i][3], tot, Cardinality(A)))
        IN Check(\A x \in {Prev[i] : i \in N} : OkP(x) /\ Uniform(x), "each factor is drawn uniformly from the allowed ones")
    ELSE Report("raised " \o Ev.res.exc)

(* C01: words with the equality classes found by == and by hashing.         *)
TPartition == Is("part") /\ Query /\
    IF Ok(Ev.res) THEN
        LET c == Ev.res.cls
            d == TLCEval([i \in 1..Len(Ev.ws) |-> DynWord(n, Ev.ws[i])])
            N == 1..Len(Ev.ws)
            D == Cardinality({d[i] : i \in N})
        IN /\ Check(Len(c) = Len(Ev.ws), "classes logged")
           /\ Check(Cardinality({<<d[i], c[i][1]>> : i \in N}) = D, "one braid falls into several classes of ==")
           /\ Check(Cardinality({<<d[i], c[i][1]>> : i \in N}) = Cardinality({c[i][1] : i \in N}), "== identifies different braids")
           /\ Check(Cardinality({<<d[i], c[i][2]>> : i \in N}) = D, "one braid has several hash classes")
           /\ Check(Cardinality({<<d[i], c[i][2]>> : i \in N}) = Cardinality({c[i][2] : i \in N}), "hashing identifies different braids")
           /\ Check(Cardinality({<<d[i], c[i][3]>> : i \in N}) = D, "one braid prints in several ways")
           /\ Check(Cardinality({<<d[i], c[i][3]>> : i \in N}) = Cardinality({c[i][3] : i \in N}), "different braids print alike")
    ELSE Report("raised " \o Ev.res.exc)
(* Objects that must differ although their data look alike.                 *)
TDiffer == Is("differ") /\ Query /\
    IF Ok(Ev.res) THEN Check(Ev.res.eq = 0, "objects of different groups or kinds compare equal") ELSE Report("raised " \o Ev.res.exc)

(* Something that denotes no braid must be refused.                         *)
TReject == Is("reject") /\ Query /\ Check(Ev.res.ok = 0, "accepted: " \o Ev.what)
(* An object made from the stored factors of two others: refused unless     *)
(* the sequence is a normal form.                                           *)
TRaw == Is("raw") /\ Query /\
    LET x == reg[Ev.a]  y == reg[Ev.b]
        nf == x.fs = <<>> \/ y.fs = <<>> \/ PairNormal(x.k, x.fs[Len(x.fs)], y.fs[1]) IN
    IF Ok(Ev.res) THEN (IF nf THEN Agrees(Ev.res, Obj(x.k, [pow |-> Ev.p, fs |-> x.fs \o y.fs])) ELSE Report("an object not in normal form was accepted"))
    ELSE Check(~nf, "a normal form was refused")
(* Comparison of two registers.                                             *)
TEq == Is("eq") /\ Query /\
    LET same == reg[Ev.a].k = reg[Ev.b].k /\ reg[Ev.a] = reg[Ev.b] IN
    IF Ok(Ev.res) THEN /\ Check((Ev.res.eq = 1) <=> same, "equality") /\ Check((Ev.res.ne = 1) <=> ~same, "inequality")
                       /\ Check(same => Ev.res.h = 1, "hashes of equal braids")
    ELSE Report("raised " \o Ev.res.exc)

Next == \/ TReject \/ TRaw \/ TEq \/ TIdentity \/ TWord \/ TSimples \/ TPair \/ TBand \/ TMul \/ TInv \/ TPow \/ TSub \/ TConv
        \/ TOut \/ TMagma \/ TSimpleOut \/ TEnum \/ TSuffixes \/ TDesc \/ TCount \/ TSample \/ TDist
        \/ TPartition \/ TDiffer
Spec == Init /\ [][Next]_vars
(* Checked on every state of every trace.                                   *)
Normal == \A i \in 1..Len(reg) : i < Len(reg) \/ IsNF(reg[i].k, n, reg[i])
=============================================================================
