------------------------------- MODULE MC_TL -------------------------------
(* Diagrams as a state machine: from the identity of NN strands, glue or    *)
(* place elementary pieces (generators, caps, cups).  All diagrams with at  *)
(* most MM points on either side are reached; laws are checked for all      *)
(* states, and pairs of small ones.                                         *)
EXTENDS TL, Json
CONSTANTS NN, MM, EMIT
VARIABLES d
CupT == FromPartner(2, 0, LAMBDA p : <<1, 1 - p[2]>>)
CapT == FromPartner(0, 2, LAMBDA p : <<0, 1 - p[2]>>)
Pad(x, i, j) == Tensor(Tensor(IdT(i), x), IdT(j))
Emit(op, x, k) == IF EMIT THEN PrintT("EDGE " \o ToJson([op |-> op, x |-> x, from |-> d, to |-> d', loops |-> k, through |-> Through(d'), flip |-> Flip(d').seq,
                                                        closure |-> IF d'.top = d'.bot THEN ClosureLoops(d') ELSE -1])) ELSE TRUE
Above(x) == LET g == Glue(x, d) IN d' = g.d /\ Emit("above", x, g.loops)
Below(x) == LET g == Glue(d, x) IN d' = g.d /\ Emit("below", x, g.loops)
Right(x) == d' = Tensor(d, x) /\ Emit("right", x, 0)
Reflect == d' = Flip(d) /\ Emit("flip", IdT(0), 0)
Init == d = IdT(NN)
Next == \/ \E i \in 0..(d.top-2) : Above(ET(i, d.top))
        \/ \E i \in 0..(d.bot-2) : Below(ET(i, d.bot))
        \/ \E i \in 0..(d.top-2) : Above(Pad(CapT, i, d.top-2-i))
        \/ \E i \in 0..d.top : d.top + 2 <= MM /\ Above(Pad(CupT, i, d.top-i))
        \/ \E i \in 0..d.bot : d.bot + 2 <= MM /\ Below(Pad(CapT, i, d.bot-i))
        \/ \E i \in 0..(d.bot-2) : Below(Pad(CupT, i, d.bot-2-i))
        \/ d.top < MM /\ d.bot < MM /\ Right(IdT(1))
        \/ Reflect
Spec == Init /\ [][Next]_d
Small == {x \in {Glue(ET(i, d.bot), ET(j, d.bot)).d : i, j \in 0..(d.bot-2)} : TRUE}
Laws ==
    /\ IsTL(d)
    /\ Flip(Flip(d)) = d /\ Through(Flip(d)) = Through(d)
    /\ Glue(d, IdT(d.bot)) = [d |-> d, loops |-> 0] /\ Glue(IdT(d.top), d) = [d |-> d, loops |-> 0]
    /\ \A i \in 0..(d.bot-2) : LET e == ET(i, d.bot) g == Glue(d, e) h == Glue(Flip(e), Flip(d)) IN
        /\ Flip(g.d) = h.d /\ g.loops = h.loops                                   \* reflection reverses products
        /\ Glue(g.d, e) = [d |-> g.d, loops |-> 1]                                \* e e = loop e
        /\ i + 1 <= d.bot-2 => LET f == ET(i+1, d.bot) g2 == Glue(g.d, f) g3 == Glue(g2.d, e) IN   \* e f e = e
            g3.d = g.d /\ g2.loops + g3.loops = 0
        /\ \A x \in Small : LET a == Glue(d, e) b == Glue(e, x) IN                 \* associativity
            Glue(a.d, x).d = Glue(d, b.d).d /\ a.loops + Glue(a.d, x).loops = b.loops + Glue(d, b.d).loops
        /\ d.top = d.bot => ClosureLoops(g.d) + g.loops = ClosureLoops(Glue(e, d).d) + Glue(e, d).loops    \* the trace is cyclic
    /\ \A m \in 1..2 : \A i \in 0..(d.bot-2) :                                     \* interchange
        Glue(Tensor(d, IdT(m)), Tensor(ET(i, d.bot), IdT(m))).d = Tensor(Glue(d, ET(i, d.bot)).d, IdT(m))
    /\ Insert(d.seq, IdT(1).seq, d.bot) = Tensor(d, IdT(1)).seq
=============================================================================
