----------------------------- MODULE Trace_LKB -----------------------------
(* The Lawrence-Krammer-Bigelow representation.  A run fixes n, p and the   *)
(* units q, t.  Its first event logs the generator matrices and inverses,   *)
(* which are judged by the relations that characterise the representation   *)
(* and are then what the specification multiplies.                          *)
EXTENDS TraceBase, Algebra, NormalForm
VARIABLES n, p, gens, invs
vars == <<t, l, n, p, gens, invs>>
hdr == Runs[t]
Init == TraceStart /\ n = hdr.n /\ p = hdr.p /\ gens = <<>> /\ invs = <<>>
Keep == UNCHANGED <<n, p, gens, invs>>
Go(op) == Is(op) /\ Keep
qq == OfLog(hdr.q)
tt == OfLog(hdr.t)
Dim == (n * (n-1)) \div 2
Shaped(x) == LogShape(x) /\ x.r = Dim /\ x.c = Dim
(* The cubic (x - 1)(x + q)(x - t q^2) and the multiplicities of its roots. *)
e3 == LMul(tt, LPow(qq, 2))
Minus(M, x) == MSub(M, MScalar(Dim, x))
Rooted(M) == /\ MMul(MMul(Minus(M, LOne), Minus(M, LNeg(qq))), Minus(M, e3)) = MFun(Dim, Dim, LAMBDA i, j : LZero)
             /\ MTrace(M) = LAdd(LInt(Dim - (n-1)), LAdd(LScale(n-2, LNeg(qq)), e3))
Relations(G) == \A i \in 1..(n-1) : \A j \in (i+1)..(n-1) :
    IF j = i+1 THEN MMul(G[i], MMul(G[j], G[i])) = MMul(G[j], MMul(G[i], G[j])) ELSE MMul(G[i], G[j]) = MMul(G[j], G[i])
TGens == Is("lkgens") /\ UNCHANGED <<n, p>> /\
    IF Ok(Ev.res) /\ Len(Ev.res.gens) = n-1 /\ Len(Ev.res.invs) = n-1 /\ \A i \in 1..(n-1) : Shaped(Ev.res.gens[i]) /\ Shaped(Ev.res.invs[i])
    THEN LET G == TLCEval([i \in 1..(n-1) |-> OfLogM(Ev.res.gens[i])])  I == TLCEval([i \in 1..(n-1) |-> OfLogM(Ev.res.invs[i])]) IN
         /\ gens' = G /\ invs' = I
         /\ Check(Relations(G), "braid relations")
         /\ Check(\A i \in 1..(n-1) : MMul(G[i], I[i]) = MId(Dim) /\ MMul(I[i], G[i]) = MId(Dim), "inverse matrices")
         /\ Check(\A i \in 1..(n-1) : Rooted(G[i]), "eigenvalues of the generators")
    ELSE /\ gens' = gens /\ invs' = invs /\ (IF Ok(Ev.res) THEN Report("generator matrices malformed") ELSE Report("raised " \o Ev.res.exc))
(* The same generators when asked again.                                    *)
TAgain == Go("again") /\ (gens = <<>> \/ IF Ok(Ev.res) THEN Check([i \in 1..(n-1) |-> OfLogM(Ev.res.gens[i])] = gens /\ [i \in 1..(n-1) |-> OfLogM(Ev.res.invs[i])] = invs, "generators asked twice") ELSE Report("raised " \o Ev.res.exc))
TDim == Go("dim") /\ (IF Ok(Ev.res) THEN Check(Ev.res.d = Dim, "dimension") ELSE Report("raised " \o Ev.res.exc))

RECURSIVE Times(_, _, _), MatFrom(_, _, _)
Times(M, G, e) == IF e = 0 THEN M ELSE Times(TLCEval(MMod(MMul(M, G), p)), G, e-1)
MatFrom(M, w, k) == IF k > Len(w) THEN M ELSE
    MatFrom(Times(M, IF w[k][2] >= 0 THEN gens[w[k][1]+1] ELSE invs[w[k][1]+1], AbsI(w[k][2])), w, k+1)
WordM(w) == MatFrom(MId(Dim), w, 1)
SimplesIn(k, fs) == [i \in 1..Len(fs) |-> IF k = "G" THEN fs[i] ELSE PermOfBlocks(n, fs[i])]
ObjM(o) == WordM(NFWord(o.k, n, [pow |-> o.pow, fs |-> SimplesIn(o.k, o.fs)]))
ExactIs(x, M) == Shaped(x) /\ OfLogM(x) = M
NonZero(M) == {ij \in (1..Dim) \X (1..Dim) : M.e[ij[1]][ij[2]].c # <<>>}
MinLo(M) == LET S == {M.e[ij[1]][ij[2]].lo : ij \in NonZero(M)} IN CHOOSE m \in S : \A x \in S : m <= x
TensorIs(rows, M) == /\ Len(rows) = Dim /\ \A i \in 1..Dim : Len(rows[i]) = Dim
                     /\ LET m == MinLo(M) IN \A i, j \in 1..Dim : LC(0, rows[i][j]) = LShift(M.e[i][j], -m)
Reduced(rows) == p = 0 \/ \A i \in 1..Len(rows) : \A j \in 1..Len(rows[i]) : \A d \in 1..Len(rows[i][j]) : rows[i][j][d] \in 0..(p-1)
Dead == gens = <<>>
TWordE == Go("ew") /\ (Dead \/ IF Ok(Ev.res) THEN Check(ExactIs(Ev.res.m, WordM(Ev.w)), "matrix of a word") ELSE Report("raised " \o Ev.res.exc))
TObjE == Go("eo") /\ (Dead \/ IF Ok(Ev.res) THEN Check(ExactIs(Ev.res.m, ObjM(Ev.o)), "matrix of a braid") ELSE Report("raised " \o Ev.res.exc))
TWordT == Go("tw") /\ (Dead \/ IF Ok(Ev.res) THEN Check(TensorIs(Ev.res.ts[1], WordM(Ev.w)) /\ Reduced(Ev.res.ts[1]), "tensor of a word") ELSE Report("raised " \o Ev.res.exc))
TObjT == Go("to") /\ (Dead \/ IF Ok(Ev.res) THEN
    Check(Len(Ev.res.ts) = Len(Ev.os) /\ \A i \in 1..Len(Ev.os) : TensorIs(Ev.res.ts[i], ObjM(Ev.os[i])) /\ Reduced(Ev.res.ts[i]), "tensor of a braid") ELSE Report("raised " \o Ev.res.exc))
Next == TGens \/ TAgain \/ TDim \/ TWordE \/ TObjE \/ TWordT \/ TObjT
Spec == Init /\ [][Next]_vars
=============================================================================
