----------------------------- MODULE MC_Search -----------------------------
(* The search as a process that fails: bucket sizes are arbitrary, the      *)
(* database is a sequence of committed rows <<run, length, bucket>>, a      *)
(* transaction is lost when the process dies or a statement fails.  Up to   *)
(* RUNS searches use one database.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS LMAX, BOOT, CAP, RUNS, BUDGETS, STEPWISE
VARIABLES run, L, pc, use, save, sizes, todo, tx, db, moved, stopping, ended
vars == <<run, L, pc, use, save, sizes, todo, tx, db, moved, stopping, ended>>
SIZES == {<<>>, <<1>>, <<2, 1>>, <<1, 3>>}
Least(a, b) == IF a < b THEN a ELSE b
RECURSIVE Within(_, _, _)
Within(S, budget, i) == IF i > Len(S) THEN Len(S) ELSE IF Least(CAP, S[i]) > budget THEN i-1 ELSE Within(S, budget - Least(CAP, S[i]), i+1)
RECURSIVE Rows(_, _, _, _)
Rows(S, k, i, len) == IF i > k THEN <<>> ELSE [j \in 1..Least(CAP, S[i]) |-> <<run, len, i>>] \o Rows(S, k, i+1, len)
Wanted(len) == Rows(sizes[len], Within(sizes[len], save, 1), 1, len)
Fresh == /\ L' = BOOT /\ pc' = "look" /\ todo' = <<>> /\ tx' = <<>> /\ moved' = <<>> /\ stopping' = FALSE
Init == /\ run = 1 /\ L = BOOT /\ pc = "look" /\ todo = <<>> /\ tx = <<>> /\ db = <<>> /\ moved = <<>> /\ stopping = FALSE /\ ended = <<>>
        /\ use \in BUDGETS /\ save \in BUDGETS
        /\ sizes \in [BOOT..LMAX -> SIZES]
Same == UNCHANGED <<run, use, save, sizes, ended>>
(* A near-kernel braid may be seen at any step.                             *)
Look == pc = "look" /\ L <= LMAX /\ (stopping' \in (IF L = LMAX THEN {TRUE} ELSE {TRUE, FALSE})) /\ pc' = "begin" /\ Same /\ UNCHANGED <<L, todo, tx, db, moved>>
Begin == pc = "begin" /\ todo' = Wanted(L) /\ tx' = <<>> /\ pc' = "save" /\ Same /\ UNCHANGED <<L, db, moved, stopping>>
Insert == pc = "save" /\ todo # <<>> /\ tx' = Append(tx, todo[1]) /\ todo' = Tail(todo) /\ Same /\ UNCHANGED <<L, pc, db, moved, stopping>>
(* STEPWISE: one transaction per step.  (A wrong design, one transaction    *)
(* per bucket, is checked to break the property.)                           *)
Commit == /\ pc = "save" /\ Same
          /\ IF todo = <<>> THEN db' = db \o tx /\ tx' = <<>> /\ pc' = "move" /\ UNCHANGED <<L, todo, moved, stopping>>
             ELSE ~STEPWISE /\ tx # <<>> /\ todo[1][3] # tx[Len(tx)][3] /\ db' = db \o tx /\ tx' = <<>> /\ UNCHANGED <<L, pc, todo, moved, stopping>>
Move == /\ pc = "move" /\ moved' = Append(moved, <<L, Within(sizes[L], use, 1)>>)
        /\ Same /\ UNCHANGED <<todo, tx, db, stopping>>
        /\ IF stopping THEN pc' = "done" /\ L' = L ELSE pc' = "look" /\ L' = L + 1
(* Death, an interrupt or a failing statement, anywhere.                    *)
Die == pc \notin {"done", "dead"} /\ pc' = "dead" /\ tx' = <<>> /\ todo' = <<>> /\ Same /\ UNCHANGED <<L, db, moved, stopping>>
Again == /\ pc \in {"done", "dead"} /\ run < RUNS /\ run' = run + 1
         /\ ended' = Append(ended, [how |-> pc, save |-> save, use |-> use, moved |-> moved, last |-> L])
         /\ use' \in BUDGETS /\ save' \in BUDGETS
         /\ Fresh /\ UNCHANGED <<sizes, db>>
Next == Look \/ Begin \/ Insert \/ Commit \/ Move \/ Die \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Look \/ Begin \/ Insert \/ Commit \/ Move)
(* --- what is promised --- *)
RowsOf(k) == SelectSeq(db, LAMBDA x : x[1] = k)
RECURSIVE Steps(_, _, _)
(* What a run with this budget saves in the steps up to len.                *)
SavedBy(k, budget, len) == LET W == Within(sizes[len], budget, 1) IN [i \in 1..Len(Rows(sizes[len], W, 1, len)) |-> [Rows(sizes[len], W, 1, len)[i] EXCEPT ![1] = k]]
Steps(k, budget, len) == IF len < BOOT THEN <<>> ELSE Steps(k, budget, len-1) \o SavedBy(k, budget, len)
Budget(k) == IF k = run THEN save ELSE ended[k].save
WholeSteps == \A k \in 1..run : \E len \in (BOOT-1)..LMAX : RowsOf(k) = Steps(k, Budget(k), len)
Finished == \A k \in 1..Len(ended) : ended[k].how = "done" => RowsOf(k) = Steps(k, ended[k].save, ended[k].last)
RECURSIVE SumTo(_, _)
SumTo(S, i) == IF i = 0 THEN 0 ELSE Least(CAP, S[i]) + SumTo(S, i-1)
(* Best first, as much as the budget allows and no more.                    *)
BestFirst == \A j \in 1..Len(moved) : LET S == sizes[moved[j][1]]  k == moved[j][2] IN
    /\ SumTo(S, k) <= use /\ (k < Len(S) => SumTo(S, k+1) > use)
    /\ moved[j][1] = BOOT + j - 1
AppendOnly == [][Len(db) <= Len(db') /\ SubSeq(db', 1, Len(db)) = db]_vars
Ends == <>(pc \in {"done", "dead"})
=============================================================================
