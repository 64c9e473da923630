------------------------------- MODULE MCBare -------------------------------
(* All small buffers, or all sequences of pieces, and all start offsets.     *)
EXTENDS Bare, Kinds, DltFormat, TLC, Json
CONSTANTS Buffers(_), Max
VARIABLES b, from
vars == <<b, from, pos, out, ended>>

Small(n) == UNION {[1..k -> 0..3] : k \in 0..n}
\* header type, counter, length (two bytes, the first one is the higher one), and the rest
Entry(h, n, k) == <<h, 7, n \div 256, n % 256>> \o [i \in 1..k |-> IF i % 3 = 0 THEN 68 ELSE 0]
Piece == {Entry(32, 4, 0), Entry(53, 9, 5), Entry(49, 22, 18), Entry(255, 5, 0), Entry(0, 3, 2), Entry(32, 260, 256), <<0>>, <<0, 0, 0>>}
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))
Pieces(n) == {Join(s) : s \in UNION {[1..k -> Piece] : k \in 0..n}}

Init == b \in Buffers(Max) /\ from \in (IF Len(b) > 12 THEN {0, 1, 4, Len(b), Len(b) + 1} ELSE 0..(Len(b) + 1)) /\ BareInit(from)
Next == (Take(b) \/ Stop(b)) /\ UNCHANGED <<b, from>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InvChain == Chain(b, from, out)
InvLongest == ended => Longest(b, from, out)
Terminates == <>ended
Case == ended => PrintT("@@" \o ToJson([b |-> b, f |-> from, o |-> out]))
=============================================================================
