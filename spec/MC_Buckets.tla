----------------------------- MODULE MC_Buckets -----------------------------
(* A whole tracker: buckets named by (length, projective length) of braids  *)
(* on NN strands in the two-rowed representation RR modulo PP, under every  *)
(* sequence of STEPS operations of OPS.  bk[tag] = [reach, count, w]: all   *)
(* the possible contents of a bucket, and what it has been offered since it *)
(* was made.  seen: the counts that the legacy tracker reports for ever.    *)
(* With capacity 0 there is room for everything.                            *)
EXTENDS Buckets, Json
CONSTANTS NN, RR, PP, KIND, MAXLEN, KK, STEPS, OPS, METHODS, CAPS, CRITS, EMIT
VARIABLES method, cap, crit, bk, seen, ops
vars == <<method, cap, crit, bk, seen, ops>>
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : TRUE IN <<a>> \o SetToSeq(S \ {a})
Basis == TLCEval(SetToSeq(Links(NN, RR)))
DD == Len(Basis)
Tab == TLCEval(ActionTable(NN, Basis))
Fol == FollowTables({KIND}, NN)
FW == FactorWords(Fol)
(* All normal forms up to MAXLEN, with powers of D modulo its order.        *)
Roots == TLCEval([x \in {[Root(KIND) EXCEPT !.pow = j] : j \in 0..(TauOrder(KIND, NN)-1)} |-> InfoNF(x, NN, Tab, DD, PP)])
Inf == TLCEval(Merge(<<Roots>> \o Levels(Fol, FW, Tab, DD, PP, Roots, MAXLEN)))
Inf0 == TLCEval({x \in DOMAIN Inf : x.pow = 0})
Shapes == TLCEval({x.fs : x \in DOMAIN Inf})
Info(x) == LET y == Fold(x, NN) IN IF y \in DOMAIN Inf THEN Inf[y] ELSE InfoNF(x, NN, Tab, DD, PP)
Tag(x) == LET i == Info(x) IN <<i.len, i.span>>
Words(k) == {x \in Inf0 : Len(x.fs) = k}
(* What can be offered: forms of one and two factors, and shifted ones.     *)
Pool == TLCEval(SubSeq(LET W1 == SetToSeq(Words(1))  W2 == SetToSeq(Words(2)) IN
    <<W1[1], W1[2], W2[1], [W1[1] EXCEPT !.pow = 1], W2[2], W1[3], Root(KIND), [W2[1] EXCEPT !.pow = -1]>>, 1, KK))
Legacyish == method \in {"Legacy", "LegacyR"}
Passes(x) == Legacyish => LET i == Info(x) IN i.len <= crit
Weight(x) == IF method \in {"AChao", "EvictMin"} THEN Info(x).nz ELSE 1
None == [reach |-> {BEmpty}, count |-> 0, w |-> 0]
At0(tag, b) == IF tag \in DOMAIN b THEN b[tag] ELSE None
Remember(b) == TLCEval([tag \in DOMAIN seen \cup DOMAIN b |-> IF tag \in DOMAIN b THEN b[tag].count ELSE seen[tag]])
(* One braid.                                                               *)
Offered1(b, x) == IF ~Passes(x) THEN b ELSE
    LET tag == Tag(x)  o == At0(tag, b)
        W == TLCEval([y \in {x} \cup UNION {DOMAIN h : h \in o.reach} |-> Weight(y)])
        new == [reach |-> UNION {AfterOne(method, cap, h, x, W, o.w + W[x]) : h \in o.reach}, count |-> o.count + 1, w |-> o.w + W[x]]
    IN TLCEval([u \in DOMAIN b \cup {tag} |-> IF u = tag THEN new ELSE b[u]])
(* A bag, with room for everything.                                         *)
OfferedBag(b, O) ==
    LET P == {x \in DOMAIN O : Passes(x)}
        tagof == TLCEval([x \in P |-> Tag(x)])
        wof == TLCEval([x \in P |-> O[x] * Weight(x)])
        of(tag) == {x \in P : tagof[x] = tag}
    IN TLCEval([tag \in DOMAIN b \cup {tagof[x] : x \in P} |-> LET o == At0(tag, b)  A == TLCEval([x \in of(tag) |-> O[x]]) IN
        IF DOMAIN A = {} THEN o ELSE
        [reach |-> {IF Legacyish THEN BAdd(h, BOfSet(DOMAIN A \ DOMAIN h)) ELSE BAdd(h, A) : h \in o.reach}, count |-> o.count + BSize(A), w |-> o.w + BSum(wof, DOMAIN A)]])
Init == /\ method \in METHODS /\ cap \in CAPS
        /\ crit \in IF Legacyish THEN CRITS ELSE {99}
        /\ bk = [x \in {} |-> None] /\ seen = [x \in {} |-> 0] /\ ops = <<>>
Bags(S) == {{<<x, h[x]>> : x \in DOMAIN h} : h \in S}
Emit == IF EMIT THEN PrintT("EDGE " \o ToJson([n |-> NN, r |-> RR, p |-> PP, k |-> KIND, method |-> method, cap |-> cap, crit |-> crit, ops |-> ops',
    bk |-> {<<tag, Bags(bk'[tag].reach), bk'[tag].count, bk'[tag].w>> : tag \in DOMAIN bk'}, seen |-> {<<tag, seen'[tag]>> : tag \in DOMAIN seen'}])) ELSE TRUE
Do(op) == /\ Len(ops) < STEPS /\ ops' = Append(ops, op) /\ seen' = Remember(bk') /\ UNCHANGED <<method, cap, crit>> /\ Emit
Held(tag) == CHOOSE h \in bk[tag].reach : TRUE
Roomy == cap = 0
RealCap == IF cap = 0 THEN 1000000 ELSE cap
Offer(i) == "offer" \in OPS /\ i <= Len(Pool) /\ bk' = (IF Roomy THEN OfferedBag(bk, BOne(Pool[i])) ELSE Offered1(bk, Pool[i])) /\ Do([op |-> "offer", x |-> Pool[i]])
Discard(tag) == "discard" \in OPS /\ bk' = TLCEval([u \in DOMAIN bk \ {tag} |-> bk[u]]) /\ Do([op |-> "discard", tag |-> tag])
Boot(k) == "boot" \in OPS /\ Roomy /\ bk' = OfferedBag(bk, BOfSet({x \in Inf0 : Len(x.fs) \in 1..k})) /\ Do([op |-> "boot", upto |-> k])
(* Extensions carry the power of D along.                                   *)
Tree(h, k) == UNION {{[x EXCEPT !.fs = f] : f \in {f \in Shapes : Len(x.fs) < Len(f) /\ Len(f) <= Len(x.fs) + k /\ SubSeq(f, 1, Len(x.fs)) = x.fs}} : x \in DOMAIN h}
Extend(tag, k) == /\ "extend" \in OPS /\ Roomy /\ tag[1] + k <= MAXLEN
    /\ LET h == Held(tag)
           I == IF Legacyish THEN Tree(h, k) ELSE {y \in Tree(h, k) : Len(y.fs) = tag[1] + k}
       IN bk' = OfferedBag(bk, ExtensionBag(Fol, h, [y \in I |-> 0], k, ~Legacyish))
    /\ Do([op |-> "extend", tag |-> tag, len |-> k])
Product(a, b) == "product" \in OPS /\ Roomy /\ a[1] + b[1] <= MAXLEN /\ bk' = OfferedBag(bk, ProductBag(NN, Held(a), Held(b))) /\ Do([op |-> "product", a |-> a, b |-> b])
Substrings(tag) == "substrings" \in OPS /\ Roomy /\ bk' = OfferedBag(bk, SubstringBag(Held(tag))) /\ Do([op |-> "substrings", tag |-> tag])
Next == \/ \E i \in 1..KK : Offer(i)
        \/ \E tag \in DOMAIN bk : Discard(tag) \/ Substrings(tag) \/ \E k \in 1..2 : Extend(tag, k)
        \/ \E k \in 1..2 : Boot(k)
        \/ \E a, b \in DOMAIN bk : Product(a, b)
Spec == Init /\ [][Next]_vars
VB == <<method, cap, crit, bk, seen, Len(ops)>>
(* --- laws --- *)
Laws ==
    /\ DOMAIN bk \subseteq DOMAIN seen
    /\ \A tag \in DOMAIN bk : LET o == bk[tag] IN
        /\ o.reach # {} /\ o.count >= 1 /\ seen[tag] = o.count
        /\ \A h \in o.reach :
            /\ DOMAIN h # {} /\ (\A x \in DOMAIN h : Tag(x) = tag /\ Passes(x) /\ IsNF(x.k, NN, [pow |-> x.pow, fs |-> x.fs]))
            /\ BSize(h) <= MinI(RealCap, o.count)
            /\ ~Legacyish => BSize(h) = MinI(RealCap, o.count)
            /\ Legacyish => \A x \in DOMAIN h : h[x] = 1 \/ cap # 0
    /\ Roomy => \A tag \in DOMAIN bk : Cardinality(bk[tag].reach) = 1
(* Everything held came from somewhere: the union over the buckets.         *)
AllHeld == UNION {DOMAIN Held(tag) : tag \in DOMAIN bk}
(* A search from the exhaustive start that extends every bucket once sees   *)
(* every normal form exactly once.                                          *)
Exhaustive ==
    LET only == \A i \in 1..Len(ops) : (i = 1) = (ops[i].op = "boot") /\ (i > 1 => ops[i].op = "extend" /\ ops[i].len = 1 /\ ops[i].tag[1] = ops[1].upto)
        done == {ops[i].tag : i \in 2..Len(ops)}
    IN ops # <<>> /\ only /\ Roomy /\ crit = 99 /\ Cardinality(done) = Len(ops) - 1 /\ done = {tag \in DOMAIN bk : tag[1] = ops[1].upto} /\ ops[1].upto < MAXLEN
       => AllHeld = {x \in Inf0 : Len(x.fs) \in 1..(ops[1].upto + 1)} /\ \A tag \in DOMAIN bk : LET h == Held(tag) IN (\A x \in DOMAIN h : h[x] = 1) /\ bk[tag].count = BSize(h)
(* A discarded bucket is gone, with no trace in the others; an operation    *)
(* only adds to the others.                                                 *)
LastOp == ops'[Len(ops')]
Local == [][/\ LastOp.op = "discard" => DOMAIN bk' = DOMAIN bk \ {LastOp.tag} /\ \A tag \in DOMAIN bk' : bk'[tag] = bk[tag]
            /\ LastOp.op # "discard" => DOMAIN bk \subseteq DOMAIN bk' /\ \A tag \in DOMAIN bk : bk'[tag].count >= bk[tag].count
            /\ (LastOp.op = "extend" => bk'[LastOp.tag] = bk[LastOp.tag])
            /\ \A tag \in DOMAIN seen : tag \in DOMAIN seen']_vars
(* Extension by two factors is extension by one, twice, when the steps are  *)
(* not counted (legacy: they are, as prefixes).                             *)
Twice == \A tag \in DOMAIN bk : "extend" \in OPS /\ Roomy /\ tag[1] + 2 <= MAXLEN =>
    LET h == Held(tag)
        E(g, k) == ExtensionBag(Fol, g, [y \in {y \in Tree(g, k) : \E x \in DOMAIN g : Len(y.fs) = Len(x.fs) + k} |-> 0], k, TRUE)
    IN E(h, 2) = E(E(h, 1), 1)
=============================================================================
