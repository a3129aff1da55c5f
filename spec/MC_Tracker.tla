----------------------------- MODULE MC_Tracker -----------------------------
(* One bucket of every method, offered sequences of KK items (repeats       *)
(* allowed) up to LL long.  held is one possible contents; reach is the set *)
(* of all of them.                                                          *)
EXTENDS Tracker, Json
CONSTANTS KK, LL, CC, EMIT
VARIABLES method, c, ws, offers, held, reach
vars == <<method, c, ws, offers, held, reach>>
Methods == {"GreedyFirst", "Uniform", "AChao", "EvictMin", "Legacy", "LegacyR"}
WeightsSet == {[i \in 1..KK |-> 1], [i \in 1..KK |-> i % 3], [i \in 1..KK |-> KK - i], [i \in 1..KK |-> IF i = KK THEN 2 ELSE 0]}
Tot(s) == WSum(s, ws)
Init == /\ method \in Methods /\ c \in 1..CC /\ ws \in WeightsSet
        /\ (method \notin {"AChao", "EvictMin"} => ws = [i \in 1..KK |-> 1])
        /\ offers = <<>> /\ held = BEmpty /\ reach = {BEmpty}
Bags(S) == {{<<x, h[x]>> : x \in DOMAIN h} : h \in S}
Emit == IF EMIT THEN PrintT("EDGE " \o ToJson([method |-> method, c |-> c, ws |-> ws, offers |-> offers', allowed |-> Bags(reach'), count |-> Len(offers'), w |-> Tot(offers')])) ELSE TRUE
Offer(x) == /\ Len(offers) < LL
            /\ offers' = Append(offers, x)
            /\ held' \in AfterOne(method, c, held, x, ws, Tot(offers'))
            /\ reach' = UNION {AfterOne(method, c, h, x, ws, Tot(offers')) : h \in reach}
            /\ UNCHANGED <<method, c, ws>>
            /\ Emit
Next == \E x \in 1..KK : Offer(x)
Spec == Init /\ [][Next]_vars
(* Replays need one behaviour per sequence of offers.                       *)
VOffers == <<method, c, ws, offers>>
Legacyish == method \in {"Legacy", "LegacyR"}
First(m) == SubSeq(offers, 1, MinI(m, Len(offers)))
Laws ==
    /\ held \in reach
    /\ BSize(held) <= c
    /\ BLeq(held, BOfSeq(offers))                                     \* nothing that was not offered
    /\ ~Legacyish => BSize(held) = MinI(c, Len(offers))               \* keeps everything while there is room
    /\ method = "GreedyFirst" => held = BOfSeq(First(c))
    /\ method = "EvictMin" => Heaviest(held, BOfSeq(offers), ws, c)
    /\ method = "Legacy" => (\A x \in DOMAIN held : held[x] = 1) /\ (BSize(held) < c => DOMAIN held = {offers[i] : i \in 1..Len(offers)})
    /\ method = "LegacyR" => (BSize(held) < c => held = BOfSet({offers[i] : i \in 1..Len(offers)}))
    (* many offers at once: the closed forms allow what single offers reach *)
    /\ \A k \in 0..Len(offers) : LET s == SubSeq(offers, 1, k)  rest == SubSeq(offers, k+1, Len(offers)) IN k = 0 => Possible(method, c, BEmpty, rest, ws, Tot(offers), held)
    /\ PossibleAny(method, c, BEmpty, BOfSeq(offers), ws, held)
(* ... and nothing else, where the contents are determined by bags.         *)
Candidates == {h \in [1..KK -> 0..c] : TRUE}
AsBag(h) == [x \in {x \in 1..KK : h[x] > 0} |-> h[x]]
Tight == (method \in {"GreedyFirst", "Uniform", "Legacy", "LegacyR", "EvictMin"}) =>
    \A h \in Candidates : Possible(method, c, BEmpty, offers, ws, Tot(offers), AsBag(h)) => AsBag(h) \in reach \/ (method = "EvictMin" /\ Len(offers) > c + 2)
(* Counts never decrease and offers are never forgotten while there is room. *)
Keeps == [][BSize(held) < c => BLeq(held, held')]_vars
OneAtATime == [][held' = held \/ BSize(held') = BSize(held) + 1 \/ (BSize(held') = BSize(held) /\ Cardinality({x \in DOMAIN held : BIn(held', x) < held[x]}) <= 1)]_vars

(* --- probabilities, exactly: multiplicities of paths --- *)
RECURSIVE Paths(_, _, _, _)
(* Function from the held set (of offer numbers) to its number of paths.    *)
Paths(m, k, w, N) ==
    IF N <= k THEN (1..N) :> 1
    ELSE LET P == TLCEval(Paths(m, k, w, N-1))
             stay == IF m = "AChao" THEN k * PSum(w, N-1) ELSE N - k
             take == IF m = "AChao" THEN w[N] ELSE 1
             moves == {<<S, (S \ {y}) \cup {N}>> : S \in DOMAIN P, y \in 1..N}
             real == {q \in moves : q[2] # q[1] \cup {N} /\ N \in q[2] /\ Cardinality(q[2]) = k}
             dom == DOMAIN P \cup {q[2] : q \in real}
             into(T) == {q[1] : q \in {q \in real : q[2] = T}}
             sum(Q) == LET RECURSIVE S2(_)
                           S2(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN P[x] + S2(X \ {x}) IN S2(Q)
         IN TLCEval([T \in dom |-> (IF T \in DOMAIN P THEN stay * P[T] ELSE 0) + take * sum(into(T))])
Total(P) == LET RECURSIVE S2(_)
                S2(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN P[x] + S2(X \ {x}) IN S2(DOMAIN P)
With(P, i) == Total([S \in {S \in DOMAIN P : i \in S} |-> P[S]])
Abs(x) == IF x < 0 THEN -x ELSE x
ASSUME UniformIsUniform == \A k \in 1..3 : \A N \in k..6 : LET P == Paths("Uniform", k, <<>>, N)  w1 == [i \in 1..N |-> 1] IN
    /\ \A S \in DOMAIN P : \A T \in DOMAIN P : P[S] = P[T]                    \* every selection equally likely
    /\ Cardinality(DOMAIN P) = Cardinality({S \in SUBSET (1..N) : Cardinality(S) = k})
    /\ \A i \in 1..N : With(P, i) * N = Total(P) * k
    /\ \A i \in 1..N : Abs(HeldP("Uniform", k, w1, i) * N - G * k) <= 5 * N
ASSUME WeightedMatches == \A k \in 1..2 : \A w \in {<<1, 2, 3, 1, 2>>, <<1, 1, 1, 1, 1>>, <<2, 0, 1, 3, 0>>, <<0, 1, 4, 1, 1>>} : LET P == Paths("AChao", k, w, 5) IN
    \A i \in 1..5 : Abs(With(P, i) * (G \div 100) - HeldP("AChao", k, w, i) * (Total(P) \div 100)) <= ((8 * Total(P)) \div 100) + 2 * G
=============================================================================
