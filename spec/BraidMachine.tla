---------------------------- MODULE BraidMachine ----------------------------
(* A register machine over braids in both normal forms.  Every action is    *)
(* one public operation; each result goes to a new register.                *)
EXTENDS NormalForm
VARIABLES n, reg
bvars == <<n, reg>>
Obj(k, X) == [k |-> k, pow |-> X.pow, fs |-> X.fs]
Put(k, X) == reg' = Append(reg, Obj(k, X)) /\ n' = n
BInit(m) == n = m /\ reg = <<>>

MakeIdentity(k)   == Put(k, IdB(n))
FromWord(k, w)    == Put(k, WordNF(k, n, w))
FromSimples(k, ss) == Put(k, SeqNF(k, n, ss))
FromPair(k, p, ss) == Put(k, MulFs(k, n, [pow |-> p, fs |-> <<>>], ss, 1))
Band(a, b)        == Put("D", WordNF("D", n, BandWord(a, b)))
Multiply(a, b)    == reg[a].k = reg[b].k /\ Put(reg[a].k, MulNF(reg[a].k, n, reg[a], reg[b]))
Invert(a)         == Put(reg[a].k, InvNF(reg[a].k, n, reg[a]))
Power(a, e)       == Put(reg[a].k, PowNF(reg[a].k, n, reg[a], e))
Substring(a, i, j) == Put(reg[a].k, [pow |-> reg[a].pow, fs |-> SubSeq(reg[a].fs, i+1, j)])
Convert(a)        == Put(Other(reg[a].k), ConvNF(reg[a].k, n, reg[a]))
Query             == UNCHANGED bvars
AllNormal == \A i \in 1..Len(reg) : IsNF(reg[i].k, n, reg[i])
=============================================================================
