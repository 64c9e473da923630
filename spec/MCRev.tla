------------------------------- MODULE MCRev --------------------------------
EXTENDS RevSearch, Kinds, TLC, Json
CONSTANTS Alphabet, MinN, MaxN

VARIABLES b, from
vars == <<b, from, before, found, over>>
Buffers == UNION {[1..n -> Alphabet] : n \in MinN..MaxN}
Init == b \in Buffers /\ from \in 0..(Len(b) + 1) /\ RevInit(b, from)
Next == RevNext(b) /\ UNCHANGED <<b, from>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InvDescending == Descending
InvAll == AllBefore(b, from)
InvLengths == Lengths(b)
Terminates == <>over
Case == over => PrintT("@@" \o ToJson([b |-> b, f |-> from, o |-> found]))
=============================================================================
