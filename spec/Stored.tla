------------------------------- MODULE Stored -------------------------------
(* The stored text of a braid: GNF(n, power, (i, j, ...)) or DGNF(...).     *)
(* A text is a sequence of tokens <<type, value>>: "G" and "D" are the two  *)
(* names, "int" an integer, "(" ")" and "," themselves, "other" anything    *)
(* else.  Divisors are stored as numbers; which number stands for which     *)
(* divisor is a parameter (num[k]: a set of <<number, divisor>>).           *)
EXTENDS NormalForm, TLC
IntOf(v) == [t |-> "int", i |-> v, s |-> <<>>]
TupOf(s) == [t |-> "tup", i |-> 0, s |-> s]
Bad == [t |-> "bad", i |-> 0, s |-> <<>>]
(* Expr at position i: the value and the position after it.                 *)
RECURSIVE Expr(_, _), Items(_, _, _)
Expr(T, i) ==
    IF i > Len(T) THEN <<Bad, i>>
    ELSE IF T[i][1] = "int" THEN <<IntOf(T[i][2]), i+1>>
    ELSE IF T[i][1] = "(" THEN
        IF i < Len(T) /\ T[i+1][1] = ")" THEN <<TupOf(<<>>), i+2>> ELSE Items(T, i+1, <<>>)
    ELSE <<Bad, i>>
(* After "(" or ",": the next item of a tuple.                              *)
Items(T, i, acc) ==
    LET e == Expr(T, i)  v == e[1]  j == e[2] IN
    IF v.t = "bad" \/ j > Len(T) THEN <<Bad, i>>
    ELSE IF T[j][1] = ")" THEN <<IF acc = <<>> THEN v ELSE TupOf(Append(acc, v)), j+1>>
    ELSE IF T[j][1] # "," THEN <<Bad, i>>
    ELSE IF j < Len(T) /\ T[j+1][1] = ")" THEN <<TupOf(Append(acc, v)), j+2>>
    ELSE Items(T, j+1, Append(acc, v))
IsTriple(v) == v.t = "tup" /\ Len(v.s) = 3 /\ v.s[1].t = "int" /\ v.s[2].t = "int" /\ v.s[3].t = "tup"
               /\ \A i \in 1..Len(v.s[3].s) : v.s[3].s[i].t = "int"
(* The braid of a text: <<>> if there is none, otherwise <<kind, n, nf>>;   *)
(* <<"?">> for groups left out here.                                        *)
Denoted(num, T) ==
    IF Len(T) < 2 \/ (T[1][1] # "G" /\ T[1][1] # "D") \/ T[2][1] # "(" THEN <<>>
    ELSE LET e == Expr(T, 2)  v == TLCEval(e[1]) IN
        IF e[2] # Len(T) + 1 \/ ~IsTriple(v) THEN <<>>
        ELSE LET k == T[1][1]  m == v.s[1].i  pow == v.s[2].i
                 is == TLCEval([i \in 1..Len(v.s[3].s) |-> v.s[3].s[i].i]) IN
            IF m < 1 THEN <<>>
            ELSE IF m = 1 \/ m > Len(num[k]) THEN <<"?">>
            ELSE LET N == num[k][m] IN
                IF \E i \in 1..Len(is) : is[i] < 0 \/ is[i] >= Len(N) THEN <<>>
                ELSE LET fs == TLCEval([i \in 1..Len(is) |-> N[is[i] + 1]])  x == [pow |-> pow, fs |-> fs] IN
                    IF IsNF(k, m, x) THEN <<k, m, x>> ELSE <<>>
(* The text with the usual punctuation.                                     *)
TTok(s) == <<s, 0>>
RECURSIVE IntList(_, _)
IntList(is, i) == IF i > Len(is) THEN <<>> ELSE (IF i > 1 THEN <<TTok(",")>> ELSE <<>>) \o <<<<"int", is[i]>>>> \o IntList(is, i+1)
Text(k, m, pow, is) == <<TTok(k), TTok("("), <<"int", m>>, TTok(","), <<"int", pow>>, TTok(","), TTok("(")>> \o IntList(is, 1)
                       \o (IF Len(is) = 1 THEN <<TTok(",")>> ELSE <<>>) \o <<TTok(")"), TTok(")")>>
(* T is the text of some triple, with the usual punctuation.                *)
Canonical(T) == IF Len(T) < 2 THEN FALSE ELSE LET v == TLCEval(Expr(T, 2)[1]) IN
    IsTriple(v) /\ T = Text(T[1][1], v.s[1].i, v.s[2].i, [i \in 1..Len(v.s[3].s) |-> v.s[3].s[i].i])
=============================================================================
