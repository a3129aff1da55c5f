---------------------------- MODULE Trace_Repro ----------------------------
(* Recorded executions of seeded programs; Runs[t].names lists them.        *)
EXTENDS TraceBase, Repro
tvars == <<t, l, steps, done, cur, at>>
Init == TraceStart /\ RInit
Name == Runs[t].names[cur]
TBegin == Is("begin") /\ Begin(Ev.p)
TStep == Is("step") /\ DoStep(Ev.v) /\ Check(StepOk(Ev.v), "step " \o ToString(at + 1) \o " (" \o Ev.what \o ") of " \o Name \o " differs (" \o Ev.how \o ")")
TEnd == Is("end") /\ (IF Ev.full = 1 THEN Finish /\ Check(EndOk, Name \o " ended at another step (" \o Ev.how \o ")") ELSE Cut)
TFail == Is("fail") /\ Cut /\ Report(Name \o " failed: " \o Ev.why)
Next == TBegin \/ TStep \/ TEnd \/ TFail
Spec == Init /\ [][Next]_tvars
=============================================================================
