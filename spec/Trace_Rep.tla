----------------------------- MODULE Trace_Rep -----------------------------
(* Recorded evaluations of the two-rowed representations.  A run fixes n, r *)
(* and p; its basis is the one the code reports, checked here to be all     *)
(* link states.  Braids are logged as words or as normal forms.             *)
EXTENDS TraceBase, Images
VARIABLES n, r, p, tab, D
vars == <<t, l, n, r, p, tab, D>>
hdr == Runs[t]
Init == /\ TraceStart /\ n = hdr.n /\ r = hdr.r /\ p = hdr.p
        /\ IF BasisGood(hdr) THEN tab = ActionTable(hdr.n, BasisOf(hdr)) /\ D = Len(hdr.basis)
           ELSE PrintT("BAD|" \o ToString(hdr.id) \o "|0|basis|the basis is not the set of link states") /\ tab = <<>> /\ D = 0
Keep == UNCHANGED <<n, r, p, tab, D>>
Go(op) == Is(op) /\ Keep

SimplesIn(k, fs) == [i \in 1..Len(fs) |-> IF k = "G" THEN fs[i] ELSE PermOfBlocks(n, fs[i])]
(* Normal-form data need not be normal here: the word is what it denotes.   *)
ObjWord(o) == NFWord(o.k, n, [pow |-> o.pow, fs |-> SimplesIn(o.k, o.fs)])
SeqWord(k, fs) == CatFs(k, SimplesIn(k, fs), 1)

ShapeOk(rows) == Len(rows) = D /\ \A i \in 1..D : Len(rows[i]) = D
(* Exact result: rows of <<lo, c>>.  When q > 0 the log holds coefficients  *)
(* modulo q of an exact (p = 0) result.                                     *)
ExactIs(rows, w, q) == LET M == WordMat(tab, D, IF q > 0 THEN q ELSE p, w) IN
    ShapeOk(rows) /\ \A i, j \in 1..D : LMod(OfLog(rows[i][j]), q) = Entry(M, i, j)
(* Tensor result: rows of coefficient lists from v^0 up.                    *)
TensorIs(rows, w) == LET M == WordMat(tab, D, p, w)  m == Valuation(M) IN
    ShapeOk(rows) /\ \A i, j \in 1..D : LC(0, rows[i][j]) = LShift(Entry(M, i, j), -m)
Reduced(rows) == p = 0 \/ \A i \in 1..Len(rows) : \A j \in 1..Len(rows[i]) : \A d \in 1..Len(rows[i][j]) : rows[i][j][d] \in 0..(p-1)

Dead == D = 0
TDim == Go("dim") /\ (IF Ok(Ev.res) THEN Check(Ev.res.d = RepDim(n, r), "dimension") ELSE Report("raised " \o Ev.res.exc))
TGens == Go("gens") /\ (Dead \/ IF Ok(Ev.res) THEN
        Check(Len(Ev.res.gens) = n-1 /\ Len(Ev.res.invs) = n-1 /\ \A i \in 1..(n-1) :
              ExactIs(Ev.res.gens[i], <<<<i-1, 1>>>>, 0) /\ ExactIs(Ev.res.invs[i], <<<<i-1, -1>>>>, 0), "generator matrices")
     ELSE Report("raised " \o Ev.res.exc))
TWordEv == Go("ew") /\ (Dead \/ IF Ok(Ev.res) THEN Check(ExactIs(Ev.res.rows, Ev.w, Ev.q), "matrix of a word") ELSE Report("raised " \o Ev.res.exc))
TObjEv == Go("eo") /\ (Dead \/ IF Ok(Ev.res) THEN Check(ExactIs(Ev.res.rows, ObjWord(Ev.o), Ev.q), "matrix of a braid") ELSE Report("raised " \o Ev.res.exc))
TScalar == Go("scalar") /\ (Dead \/ IF Ok(Ev.res) THEN
        LET M == WordMat(tab, D, IF Ev.q > 0 THEN Ev.q ELSE p, ObjWord(Ev.o)) IN
        /\ Check(ExactIs(Ev.res.rows, ObjWord(Ev.o), Ev.q), "matrix of a kernel element")
        /\ Check(IsScalar(M), "kernel element does not act by a scalar")
     ELSE Report("raised " \o Ev.res.exc))
(* Tensors of several braids: os, res.ts in the same order.                 *)
TTensors == Go("to") /\ (Dead \/ IF Ok(Ev.res) THEN
        /\ Check(Len(Ev.res.ts) = Len(Ev.os), "one tensor for each braid")
        /\ Check(Len(Ev.res.ts) = Len(Ev.os) => \A i \in 1..Len(Ev.os) : TensorIs(Ev.res.ts[i], ObjWord(Ev.os[i])), "tensor of a braid")
        /\ Check(\A i \in 1..Len(Ev.res.ts) : Reduced(Ev.res.ts[i]), "coefficients are reduced")
     ELSE Report("raised " \o Ev.res.exc))
TTensorWord == Go("tw") /\ (Dead \/ IF Ok(Ev.res) THEN
        /\ Check(TensorIs(Ev.res.ts[1], Ev.w), "tensor of a word")
        /\ Check(Reduced(Ev.res.ts[1]), "coefficients are reduced")
     ELSE Report("raised " \o Ev.res.exc))
TTensorSeq == Go("tq") /\ (Dead \/ IF Ok(Ev.res) THEN
        /\ Check(Len(Ev.res.ts) = Len(Ev.sss), "one tensor for each sequence")
        /\ Check(Len(Ev.res.ts) = Len(Ev.sss) => \A i \in 1..Len(Ev.sss) : TensorIs(Ev.res.ts[i], SeqWord(Ev.k, Ev.sss[i])), "tensor of a sequence of factors")
        /\ Check(\A i \in 1..Len(Ev.res.ts) : Reduced(Ev.res.ts[i]), "coefficients are reduced")
     ELSE Report("raised " \o Ev.res.exc))
TTensorGens == Go("tg") /\ (Dead \/ IF Ok(Ev.res) THEN
        Check(Len(Ev.res.gens) = n-1 /\ Len(Ev.res.invs) = n-1 /\ \A i \in 1..(n-1) :
              /\ TensorIs(Ev.res.gens[i], <<<<i-1, 1>>>>) /\ TensorIs(Ev.res.invs[i], <<<<i-1, -1>>>>)
              /\ Reduced(Ev.res.gens[i]) /\ Reduced(Ev.res.invs[i]), "tensors of the generators")
     ELSE Report("raised " \o Ev.res.exc))
(* Prefixes: res.pre[k+1] = tensors of the images of (power, first k factors). *)
TPrefixes == Go("prefixes") /\ (Dead \/ IF Ok(Ev.res) THEN
        LET len == Len(Ev.os[1].fs) IN
        /\ Check(Len(Ev.res.pre) = len + 1, "number of prefixes")
        /\ Check(\A k \in 1..Len(Ev.res.pre) : Len(Ev.res.pre[k]) = Len(Ev.os) /\ \A i \in 1..Len(Ev.os) :
              TensorIs(Ev.res.pre[k][i], ObjWord([Ev.os[i] EXCEPT !.fs = SubSeq(@, 1, k-1)])) /\ Reduced(Ev.res.pre[k][i]), "image of a prefix")
     ELSE Report("raised " \o Ev.res.exc))

(* Statistics of a projective image: computed from the specification's own  *)
(* matrix.  Twice the gap is logged to stay in the integers.                *)
Span(M) == LET S == {Entry(M, ij[1], ij[2]) : ij \in {q \in (1..D) \X (1..D) : Entry(M, q[1], q[2]).c # <<>>}}
               hi == CHOOSE h \in {LHi(a) : a \in S} : \A a \in S : LHi(a) <= h
           IN hi - MinOf({a.lo : a \in S})
(* A table: one row per braid, each with its own statistics.  ratio is      *)
(* logged as <<numerator, denominator>> of rhogap/length.                   *)
StatsOk(o, s) ==
    LET M == WordMat(tab, D, p, ObjWord(o))  len == Len(o.fs)  g == Span(M) IN
    /\ s.length = len /\ s.nz = NZSum(M, D, 0) /\ s.degmax = g /\ s.valmin = 0 /\ s.rhogap2 = g
    /\ IF len = 0 THEN TRUE ELSE s.ratio[2] # 0 /\ s.ratio[1] * 2 * len = g * s.ratio[2]
TFrame == Go("frame") /\ (Dead \/ IF Ok(Ev.res) THEN
        /\ Check(Len(Ev.res.rows) = Len(Ev.os), "one row for each braid")
        /\ Check(Ev.res.os = Ev.os, "rows in the order given")
        /\ Check(Len(Ev.res.rows) = Len(Ev.os) => \A i \in 1..Len(Ev.os) : StatsOk(Ev.os[i], Ev.res.rows[i]), "statistics of the own image")
        /\ Check(Len(Ev.res.ts) = Len(Ev.os) /\ \A i \in 1..Len(Ev.os) : TensorIs(Ev.res.ts[i], ObjWord(Ev.os[i])), "image beside its braid")
     ELSE Report("raised " \o Ev.res.exc))
(* The exhaustive low-gap search of one length: exactly the braids with     *)
(* rhogap/length < 1, each with its image.                                  *)
TBelow == Go("below") /\ (Dead \/ IF Ok(Ev.res) THEN
        LET fol == FollowTables({"G"}, n)
            LV == Levels(fol, FactorWords(fol), tab, D, p, (Root("G") :> InfoNF(Root("G"), n, tab, D, p)), Ev.len)
            I == LV[Ev.len]
            good == TLCEval({y \in DOMAIN I : I[y].span - 1 < 2 * Ev.len})
            got == TLCEval([i \in 1..Len(Ev.res.os) |-> TLCEval([k |-> Ev.res.os[i].k, pow |-> Ev.res.os[i].pow, fs |-> Ev.res.os[i].fs])])
        IN
        /\ Check({got[i] : i \in 1..Len(got)} = good /\ Len(got) = Cardinality(good), "exactly the braids of low gap")
        /\ Check(Len(Ev.res.ts) = Len(got) /\ \A i \in 1..Len(got) : TensorIs(Ev.res.ts[i], ObjWord(Ev.res.os[i])), "image beside its braid")
     ELSE Report("raised " \o Ev.res.exc))
(* Random braids with images: power 0, the length asked for.                *)
TSampled == Go("sampled") /\ (Dead \/ IF Ok(Ev.res) THEN
        /\ Check(Len(Ev.res.os) = Len(Ev.lens) /\ Len(Ev.res.ts) = Len(Ev.lens), "number of samples")
        /\ Check(\A i \in 1..Len(Ev.res.os) : i > Len(Ev.lens) \/ (Len(Ev.res.os[i].fs) = Ev.lens[i] /\ Ev.res.os[i].pow = 0), "length and power of samples")
        /\ Check(\A i \in 1..Len(Ev.res.os) : IsNF("G", n, [pow |-> 0, fs |-> Ev.res.os[i].fs]), "samples are normal")
        /\ Check(Len(Ev.res.ts) = Len(Ev.res.os) => \A i \in 1..Len(Ev.res.os) : TensorIs(Ev.res.ts[i], ObjWord(Ev.res.os[i])), "image beside its braid")
     ELSE Report("raised " \o Ev.res.exc))
Next == TDim \/ TGens \/ TWordEv \/ TObjEv \/ TScalar \/ TTensors \/ TTensorWord \/ TTensorSeq \/ TTensorGens \/ TPrefixes \/ TFrame \/ TBelow \/ TSampled
Spec == Init /\ [][Next]_vars
=============================================================================
