------------------------------ MODULE Polymat ------------------------------
(* Tensors of polynomial matrices: [sh, I, J, D, ms], ms the matrices of    *)
(* the batch in row-major order of the shape sh, D the width of the degree  *)
(* axis (all degrees are below D).                                          *)
EXTENDS Algebra
RECURSIVE Prod(_, _)
Prod(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * Prod(s, i+1)
Size(s) == Prod(s, 1)
Tensor(sh, I, J, D, ms) == [sh |-> sh, I |-> I, J |-> J, D |-> D, ms |-> ms]
(* Logged tensors: ms[k][i][j] is the list of D coefficients.               *)
LogTensorShape(x) == Len(x.ms) = Size(x.sh) /\ \A k \in 1..Len(x.ms) : Len(x.ms[k]) = x.I /\
    \A i \in 1..x.I : Len(x.ms[k][i]) = x.J /\ \A j \in 1..x.J : Len(x.ms[k][i][j]) = x.D
OfLogT(x) == Tensor(x.sh, x.I, x.J, x.D, TLCEval([k \in 1..Len(x.ms) |-> MFun(x.I, x.J, LAMBDA i, j : LC(0, x.ms[k][i][j]))]))
Cells(M) == {ij \in (1..M.r) \X (1..M.c) : M.e[ij[1]][ij[2]].c # <<>>}
IsZeroM(M) == Cells(M) = {}
MaxOfS(S) == CHOOSE m \in S : \A x \in S : x <= m
MinOfS(S) == CHOOSE m \in S : \A x \in S : m <= x
MVal(M) == MinOfS({M.e[ij[1]][ij[2]].lo : ij \in Cells(M)})
MDeg(M) == MaxOfS({LHi(M.e[ij[1]][ij[2]]) : ij \in Cells(M)})
MShift(M, s) == MFun(M.r, M.c, LAMBDA i, j : LShift(M.e[i][j], s))
MTrunc(M, q) == MFun(M.r, M.c, LAMBDA i, j : LET a == M.e[i][j] IN
    IF a.c = <<>> \/ LHi(a) < q THEN a ELSE IF a.lo >= q THEN LZero ELSE LC(a.lo, SubSeq(a.c, 1, q - a.lo)))
MTerms(M) == LET RECURSIVE S(_)
                 S(k) == IF k >= M.r * M.c THEN 0 ELSE Cardinality({i \in 1..Len(M.e[(k \div M.c)+1][(k % M.c)+1].c) : M.e[(k \div M.c)+1][(k % M.c)+1].c[i] # 0}) + S(k+1)
             IN S(0)
ProjLen(M) == IF IsZeroM(M) THEN 0 ELSE MDeg(M) - MVal(M) + 1
(* Sum of the ranks of the first terms coefficient matrices.                *)
RECURSIVE ProjRank(_, _)
ProjRank(M, terms) == IF terms = 0 THEN 0 ELSE
    Rank([i \in 1..M.r |-> [j \in 1..M.c |-> Coef(M.e[i][j], terms-1)]], M.c) + ProjRank(M, terms-1)
(* Broadcasting, aligned on the right.                                      *)
PadTo(s, k) == [i \in 1..k |-> IF i <= k - Len(s) THEN 1 ELSE s[i - (k - Len(s))]]
MaxI(a, b) == IF a > b THEN a ELSE b
Compatible(s, u) == LET k == MaxI(Len(s), Len(u)) IN \A i \in 1..k : LET a == PadTo(s, k)[i]  b == PadTo(u, k)[i] IN a = b \/ a = 1 \/ b = 1
Broadcast(s, u) == LET k == MaxI(Len(s), Len(u)) IN [i \in 1..k |-> LET a == PadTo(s, k)[i]  b == PadTo(u, k)[i] IN IF a = 1 THEN b ELSE a]
(* Position in a batch of shape s of the element at (0-based) position f of *)
(* a batch of the broadcast shape u.                                        *)
RECURSIVE Coord(_, _, _), FlatFrom(_, _, _, _)
Coord(u, f, i) == (f \div Prod(u, i+1)) % u[i]
FlatFrom(u, s, f, i) == IF i > Len(u) THEN 0 ELSE (IF s[i] = 1 THEN 0 ELSE Coord(u, f, i)) * Prod(s, i+1) + FlatFrom(u, s, f, i+1)
At(T, u, f) == T.ms[1 + FlatFrom(u, PadTo(T.sh, Len(u)), f, 1)]
TMul(A, B, q) == LET u == Broadcast(A.sh, B.sh) IN
    [sh |-> u, ms |-> TLCEval([f \in 1..Size(u) |-> LET M == MMul(At(A, u, f-1), At(B, u, f-1)) IN IF q >= 0 THEN MTrunc(M, q) ELSE M])]
(* Least width holding every matrix.                                        *)
Width(ms) == LET S == {k \in 1..Len(ms) : ~IsZeroM(ms[k])} IN IF S = {} THEN 0 ELSE 1 + MaxOfS({MDeg(ms[k]) : k \in S})
Low(ms) == LET S == {k \in 1..Len(ms) : ~IsZeroM(ms[k])} IN MinOfS({MVal(ms[k]) : k \in S})
Projective(ms) == [k \in 1..Len(ms) |-> MShift(ms[k], -MVal(ms[k]))]
BurauGen(n, s) == MFun(n-1, n-1, LAMBDA i, j :
    IF i-1 = s /\ (j = i+1 \/ j = i-1) THEN LMono(-1, 1) ELSE IF i = j /\ i-1 = s THEN LMono(-1, 2) ELSE IF i = j THEN LOne ELSE LZero)
=============================================================================
