----------------------------- MODULE Trace_Pure -----------------------------
(* Recorded histories of calls.  Ev.new: <<object, value>> of arguments not *)
(* seen before; Ev.as: of the arguments looked at after the call; Ev.out:   *)
(* of the result.  Names of calls are listed in the header.                 *)
EXTENDS TraceBase, Pure
tvars == <<t, l, memo, val>>
Init == TraceStart /\ PInit
CallName(c) == Runs[t].names[c]
RECURSIVE RemAll(_, _, _)
RemAll(f, L, i) == IF i > Len(L) THEN f ELSE RemAll(Remember(f, L[i][1], L[i][2]), L, i+1)
LooksOk(f, L) == \A i \in 1..Len(L) : Agrees1(f, L[i][1], L[i][2])
TCall == /\ Is("call")
         /\ Check(CallOk(Ev.c, Ev.v), "the value of " \o CallName(Ev.c) \o " changed")
         /\ LET val1 == RemAll(val, Ev.new, 1) IN
            /\ Check(LooksOk(val1, Ev.as), "an argument of " \o CallName(Ev.c) \o " changed")
            /\ val' = RemAll(val1, Ev.out, 1)
         /\ memo' = Remember(memo, Ev.c, Ev.v)
TLook == /\ Is("look")
         /\ Check(LooksOk(val, Ev.as), "an object changed after it was returned")
         /\ val' = RemAll(val, Ev.as, 1) /\ memo' = memo
TProc == Is("process") /\ NewProcess
Next == TCall \/ TLook \/ TProc
Spec == Init /\ [][Next]_tvars
=============================================================================
