------------------------------- MODULE MC_Pure -------------------------------
(* Designs of a library with memory, against Pure.  A call f(n, x) wants    *)
(* the value F(n, x); results are objects that live on.  Designs:           *)
(*   "none"     no memory                                                   *)
(*   "whole"    results are kept under the whole argument                   *)
(*   "part"     results are kept under n only                               *)
(*   "scratch"  one result object for each n, overwritten by the next call  *)
(*   "counter"  the value depends on how many calls there were              *)
(*   "eats"     the argument object is changed by the call                  *)
EXTENDS Pure
CONSTANTS DESIGN, CALLS
VARIABLES cache, store, made, calls, good
mvars == <<memo, val, cache, store, made, calls, good>>
NS == {1, 2}
XS == {1, 2}
F(n, x) == 10*n + x
(* store: object |-> its present content.  Object 0 is the shared argument. *)
Init == PInit /\ cache = <<>> /\ store = (0 :> 1) /\ made = 0 /\ calls = 0 /\ good = TRUE
Key(n, x) == IF DESIGN = "part" THEN <<n, 0>> ELSE <<n, x>>
Compute(n, x) == IF DESIGN = "counter" THEN F(n, x) + (IF calls > 1 THEN 1 ELSE 0) ELSE F(n, x)
(* The call f(n, x), or f(n, content of the shared argument).               *)
Do(n, x, shared) ==
    /\ calls < CALLS
    /\ calls' = calls + 1
    /\ LET hit == DESIGN \in {"whole", "part"} /\ Key(n, x) \in DOMAIN cache
           v == IF hit THEN cache[Key(n, x)] ELSE Compute(n, x)
           o == IF DESIGN = "scratch" THEN n ELSE made + 1
           st1 == Bind(store, o, v)
           st2 == IF DESIGN = "eats" /\ shared THEN [st1 EXCEPT ![0] = 2] ELSE st1
       IN /\ cache' = IF DESIGN \in {"whole", "part"} /\ ~hit THEN Bind(cache, Key(n, x), v) ELSE cache
          /\ store' = st2
          /\ made' = IF DESIGN = "scratch" THEN made ELSE made + 1
          /\ memo' = Remember(memo, <<n, x>>, v)
          /\ val' = Remember(val, o, v)
          /\ good' = (good /\ CallOk(<<n, x>>, v) /\ \A p \in DOMAIN val : p \in DOMAIN st2 => val[p] = st2[p])
Restart == /\ calls > 0 /\ calls < CALLS
           /\ cache' = <<>> /\ store' = (0 :> 1) /\ made' = 0 /\ NewProcess /\ calls' = calls + 1 /\ good' = good
Look0 == /\ ~(0 \in DOMAIN val) /\ val' = Bind(val, 0, store[0]) /\ UNCHANGED <<memo, cache, store, made, calls, good>>
Next == Restart \/ Look0 \/ (\E n \in NS, x \in XS : Do(n, x, FALSE)) \/ (\E n \in NS : Do(n, store[0], TRUE))
Spec == Init /\ [][Next]_mvars
Pureness == good
=============================================================================
