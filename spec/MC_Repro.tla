------------------------------ MODULE MC_Repro ------------------------------
(* Designs of a seeded program that makes choices, against Repro:           *)
(*   "own"     draws from a source made from its seed                       *)
(*   "shared"  draws from the source of the process, which others use too   *)
(*   "seeded"  seeds the source of the process, then draws from it; other   *)
(*             work may come in between                                     *)
(*   "order"   goes through a set in the order of the process               *)
EXTENDS Repro
CONSTANTS DESIGN, RUNS, BETWEEN
VARIABLES src, own, hash, runs, good
mvars == <<steps, done, cur, at, src, own, hash, runs, good>>
Draw(s) == (3*s + 1) % 7
Init == RInit /\ src \in {0, 2} /\ own = 0 /\ hash \in {0, 1} /\ runs = 0 /\ good = TRUE
Start == /\ cur = 0 /\ runs < RUNS /\ runs' = runs + 1
         /\ \E p \in {1, 2} : Begin(p) /\ own' = p /\ src' = IF DESIGN = "seeded" THEN p ELSE src
         /\ UNCHANGED <<hash, good>>
Go == /\ cur # 0 /\ at < 3
      /\ LET v == IF DESIGN = "own" THEN own ELSE IF DESIGN = "order" THEN own + hash ELSE src
         IN DoStep(v) /\ good' = (good /\ StepOk(v))
      /\ own' = Draw(own) /\ src' = (IF DESIGN \in {"shared", "seeded"} THEN Draw(src) ELSE src)
      /\ UNCHANGED <<hash, runs>>
Ends == /\ cur # 0 /\ at = 3 /\ good' = (good /\ EndOk)
        /\ done' = (IF cur \in DOMAIN done THEN done ELSE (cur :> at) @@ done) /\ cur' = 0 /\ at' = 0
        /\ UNCHANGED <<steps, src, own, hash, runs>>
(* Killed, anywhere.                                                        *)
Killed == cur # 0 /\ cur' = 0 /\ at' = 0 /\ UNCHANGED <<steps, done, src, own, hash, runs, good>>
(* Another process.                                                         *)
Process == /\ cur = 0 /\ runs > 0 /\ runs < RUNS /\ src' \in {0, 2} /\ hash' \in {0, 1} /\ UNCHANGED <<steps, done, cur, at, own, runs, good>>
Others == BETWEEN /\ runs < RUNS + 1 /\ src' = Draw(src) /\ UNCHANGED <<steps, done, cur, at, own, hash, runs, good>>
Next == Start \/ Go \/ Ends \/ Killed \/ Process \/ Others
Spec == Init /\ [][Next]_mvars
Reproduces == good
=============================================================================
