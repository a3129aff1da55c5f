----------------------------- MODULE TraceBase -----------------------------
(* Shared part of every trace specification.  A trace file holds many runs; *)
(* each run is one initial state (index t), and each step consumes one      *)
(* logged event (position l).  Verdicts are total: a step whose logged      *)
(* result is not the one the specification allows prints a BAD line naming  *)
(* the run, the event and the clause, and the specification continues with  *)
(* its own state.  The driver accepts a trace when there is no BAD line and *)
(* TLC has seen one state per event plus one per run.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES t, l
HasEvent == l < Len(Runs[t].ev)
Ev == Runs[t].ev[l+1]
Is(op) == HasEvent /\ Ev.op = op /\ l' = l+1 /\ t' = t
Report(clause) == PrintT("BAD|" \o ToString(Runs[t].id) \o "|" \o ToString(l+1) \o "|" \o Ev.op \o "|" \o clause)
Check(ok, clause) == IF ok THEN TRUE ELSE Report(clause)
(* Results carry ok = 1, or ok = 0 and the exception raised.                *)
Ok(r) == r.ok = 1
Returned(r) == IF Ok(r) THEN TRUE ELSE Report("raised " \o r.exc) 
CheckR(r, P(_), clause) == IF Ok(r) THEN Check(P(r), clause) ELSE Report("raised " \o r.exc)
TraceStart == t \in 1..Len(Runs) /\ l = 0
=============================================================================
