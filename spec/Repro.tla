------------------------------- MODULE Repro -------------------------------
(* Seeded programs.  A program (what is run, its parameters and its seed)   *)
(* is executed again and again: by other processes, under other hash seeds, *)
(* after other work.  Its steps must be the same every time, and when it    *)
(* runs to its end, it ends after the same number of steps.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES steps,   \* program |-> the longest sequence of steps seen
          done,    \* program |-> number of steps after which it ended (programs seen to end)
          cur, at  \* what is running, and how many steps it has made
rvars == <<steps, done, cur, at>>
RInit == steps = <<>> /\ done = <<>> /\ cur = 0 /\ at = 0
SeenSteps(p) == IF p \in DOMAIN steps THEN steps[p] ELSE <<>>
Begin(p) == cur' = p /\ at' = 0 /\ UNCHANGED <<steps, done>>
StepOk(v) == /\ at + 1 <= Len(SeenSteps(cur)) => SeenSteps(cur)[at + 1] = v
             /\ cur \in DOMAIN done => at + 1 <= done[cur]
DoStep(v) == /\ at' = at + 1 /\ UNCHANGED <<cur, done>>
             /\ steps' = IF at + 1 > Len(SeenSteps(cur)) THEN (cur :> Append(SeenSteps(cur), v)) @@ steps ELSE steps
EndOk == (cur \in DOMAIN done => done[cur] = at) /\ Len(SeenSteps(cur)) = at
Finish == done' = (IF cur \in DOMAIN done THEN done ELSE (cur :> at) @@ done) /\ UNCHANGED <<steps, cur, at>>
Cut == UNCHANGED rvars
=============================================================================
