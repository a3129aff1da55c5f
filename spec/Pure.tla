-------------------------------- MODULE Pure --------------------------------
(* Functions: a process makes calls and holds objects.  Whatever the order  *)
(* of calls, and in whichever process they are made, a call (function and   *)
(* values of the arguments) has one value; and an object keeps the value it *)
(* had when it was first seen.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES memo,     \* call |-> the value it had; survives processes
          val       \* object of the running process |-> the value it had
pvars == <<memo, val>>
PInit == memo = <<>> /\ val = <<>>
Known(f, x) == x \in DOMAIN f
Bind(f, x, v) == (x :> v) @@ f
(* A call c with value v whose arguments and result are held as objects     *)
(* args and out (0: not held).                                              *)
Agrees1(f, x, v) == Known(f, x) => f[x] = v
Remember(f, x, v) == IF Known(f, x) THEN f ELSE Bind(f, x, v)
CallOk(c, v) == Agrees1(memo, c, v)
LookOk(o, v) == Agrees1(val, o, v)
NewProcess == memo' = memo /\ val' = <<>>
=============================================================================
