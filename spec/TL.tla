--------------------------------- MODULE TL ---------------------------------
(* The Temperley-Lieb category.  A diagram [top, bot, seq] joins bottom     *)
(* points 0..bot-1 (from the left) and top points 0..top-1 (from the left); *)
(* seq numbers the points anticlockwise, bottom from the left, then top     *)
(* from the right, and seq[i+1] is the partner of point i.  Everything here *)
(* is defined by gluing pictures, not by the numbering.                     *)
EXTENDS Algebra
RECURSIVE BinomT(_, _)
BinomT(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE BinomT(n-1, k-1) + BinomT(n-1, k)
CatalanT(n) == BinomT(2*n, n) \div (n+1)
CellDim(n, r) == BinomT(n, r) - BinomT(n, r-1)
(* A perfect matching of 0..N-1 without crossings.                          *)
IsMatching(s) == LET N == Len(s) IN
    /\ \A i \in 1..N : s[i] \in 0..(N-1) /\ s[i] # i-1 /\ s[s[i]+1] = i-1
    /\ \A i \in 1..N : \A j \in (i+1)..s[i] : s[j] >= i /\ s[j] < s[i]
Diag(top, bot, s) == [top |-> top, bot |-> bot, seq |-> s]
IsTL(d) == Len(d.seq) = d.top + d.bot /\ IsMatching(d.seq)
(* Points of a picture: <<0, x>> at the bottom, <<1, x>> at the top.        *)
PtOf(d, i) == IF i < d.bot THEN <<0, i>> ELSE <<1, d.bot + d.top - 1 - i>>
Idx(d, p) == IF p[1] = 0 THEN p[2] ELSE d.bot + d.top - 1 - p[2]
Partner(d, p) == PtOf(d, d.seq[Idx(d, p)+1])
(* The diagram with the given partner function on its points.               *)
FromPartner(top, bot, F(_)) == LET e == Diag(top, bot, <<>>) IN Diag(top, bot, TLCEval([i \in 1..(top+bot) |-> Idx(e, F(PtOf(e, i-1)))]))
Through(d) == Cardinality({x \in 0..(d.bot-1) : Partner(d, <<0, x>>)[1] = 1})
IdT(n) == FromPartner(n, n, LAMBDA p : <<1 - p[1], p[2]>>)
ET(i, n) == FromPartner(n, n, LAMBDA p : IF p[2] = i THEN <<p[1], i+1>> ELSE IF p[2] = i+1 THEN <<p[1], i>> ELSE <<1 - p[1], p[2]>>)
Flip(d) == FromPartner(d.bot, d.top, LAMBDA p : LET q == Partner(d, <<1 - p[1], p[2]>>) IN <<1 - q[1], q[2]>>)
(* a to the left of b.                                                      *)
Tensor(a, b) ==
    LET wide(d, s) == IF s = 0 THEN d.bot ELSE d.top IN
    FromPartner(a.top + b.top, a.bot + b.bot, LAMBDA p :
        IF p[2] < wide(a, p[1]) THEN Partner(a, p)
        ELSE LET q == Partner(b, <<p[1], p[2] - wide(a, p[1])>>) IN <<q[1], q[2] + wide(a, q[1])>>)
(* Gluing: a graph on levels 0 (bottom), 1 (middle), 2 (top), in which every*)
(* point has its partner in the lower and/or upper diagram.                 *)
RECURSIVE Close1(_, _)
Close1(S, N) == LET T == S \cup UNION {N[p] : p \in S} IN IF T = S THEN S ELSE Close1(T, N)
Glue(u, d) ==
    LET up(p) == LET q == Partner(u, <<p[1]-1, p[2]>>) IN <<q[1]+1, q[2]>>
        low(p) == Partner(d, p)
        pts == {<<0, x>> : x \in 0..(d.bot-1)} \cup {<<1, x>> : x \in 0..(u.bot-1)} \cup {<<2, x>> : x \in 0..(u.top-1)}
        N == TLCEval([p \in pts |-> TLCEval((IF p[1] >= 1 THEN {up(p)} ELSE {}) \cup (IF p[1] <= 1 THEN {low(p)} ELSE {}))])
        comp(p) == Close1({p}, N)
        other(p) == CHOOSE q \in comp(p) : q # p /\ q[1] # 1
        loops == {S \in {comp(<<1, x>>) : x \in 0..(u.bot-1)} : \A q \in S : q[1] = 1}
    IN [d |-> FromPartner(u.top, d.bot, LAMBDA p : LET q == other(<<2*p[1], p[2]>>) IN <<q[1] \div 2, q[2]>>), loops |-> Cardinality(loops)]
(* Loops after joining each top point with the bottom point below it.       *)
ClosureLoops(d) == LET N == TLCEval([p \in (0..1) \X (0..(d.bot-1)) |-> {Partner(d, p), <<1 - p[1], p[2]>>}]) IN Cardinality({Close1({<<0, x>>}, N) : x \in 0..(d.bot-1)})
(* Insert the sequence b at place i of the sequence a.                      *)
Insert(a, b, i) == LET m == Len(b) sh(x) == IF x < i THEN x ELSE x + m IN
    TLCEval([k \in 1..(Len(a)+m) |-> IF k <= i THEN sh(a[k]) ELSE IF k <= i+m THEN b[k-i] + i ELSE sh(a[k-m])])

(* Linear combinations [top, bot, f]: f maps diagram sequences to nonzero   *)
(* Laurent polynomials.                                                     *)
LoopV == [lo |-> -1, c |-> <<1, 0, 1>>]
RECURSIVE LSum(_, _)
LSum(S, F) == IF S = {} THEN LZero ELSE LET x == CHOOSE x \in S : TRUE IN LAdd(F[x], LSum(S \ {x}, F))
Clean(top, bot, f) == LET g == TLCEval(f) IN [top |-> top, bot |-> bot, f |-> TLCEval([s \in {s \in DOMAIN g : g[s].c # <<>>} |-> g[s]])]
At(m, s) == IF s \in DOMAIN m.f THEN m.f[s] ELSE LZero
One(d) == [top |-> d.top, bot |-> d.bot, f |-> (d.seq :> LOne)]
MorZero(top, bot) == Clean(top, bot, [s \in {} |-> LZero])
MorAdd(a, b) == Clean(a.top, a.bot, [s \in DOMAIN a.f \cup DOMAIN b.f |-> LAdd(At(a, s), At(b, s))])
MorScale(x, a) == Clean(a.top, a.bot, [s \in DOMAIN a.f |-> LMul(x, a.f[s])])
MorMul(a, b) ==
    LET Pairs == (DOMAIN a.f) \X (DOMAIN b.f)
        G == TLCEval([p \in Pairs |-> Glue(Diag(a.top, a.bot, p[1]), Diag(b.top, b.bot, p[2]))])
        C == TLCEval([p \in Pairs |-> LMul(LPow(LoopV, G[p].loops), LMul(a.f[p[1]], b.f[p[2]]))])
    IN Clean(a.top, b.bot, [s \in {G[p].d.seq : p \in Pairs} |-> LSum({p \in Pairs : G[p].d.seq = s}, C)])
MorFlip(a, twist) ==
    LET tw(x) == IF twist THEN [lo |-> -LHi(x), c |-> TLCEval([i \in 1..Len(x.c) |-> x.c[Len(x.c)+1-i]])] ELSE x
        fl(s) == Flip(Diag(a.top, a.bot, s)).seq
    IN Clean(a.bot, a.top, [s \in {fl(u) : u \in DOMAIN a.f} |-> tw(a.f[CHOOSE u \in DOMAIN a.f : fl(u) = s])])
MorQuot(a, k) == Clean(a.top, a.bot, [s \in {s \in DOMAIN a.f : Through(Diag(a.top, a.bot, s)) >= k} |-> a.f[s]])
MorTrace(a) == LSum(DOMAIN a.f, [s \in DOMAIN a.f |-> LMul(a.f[s], LPow(LoopV, ClosureLoops(Diag(a.top, a.bot, s))))])
RECURSIVE MorPow(_, _)
MorPow(a, e) == IF e = 0 THEN One(IdT(a.top)) ELSE MorMul(MorPow(a, e-1), a)
(* Matrix of a on the cell module with the basis B (sequences).             *)
CellMatrix(a, n, r, B) == LET cols == TLCEval([j \in 1..Len(B) |-> MorMul(a, One(Diag(n, n-2*r, B[j])))]) IN
    MFun(Len(B), Len(B), LAMBDA i, j : At(cols[j], B[i]))
=============================================================================
