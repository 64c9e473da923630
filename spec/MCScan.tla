------------------------------- MODULE MCScan -------------------------------
(* All small buffers, and all start offsets.                                 *)
EXTENDS Contain, Kinds, TLC, Json
CONSTANTS Alphabet, MinN, MaxN,
          Offsets     \* all start offsets, or only 0

VARIABLES b, from
vars == <<b, from, pos, out, ended>>

Buffers == UNION {[1..n -> Alphabet] : n \in MinN..MaxN}
Init == b \in Buffers /\ from \in (IF Offsets THEN 0..(Len(b) + 1) ELSE {0}) /\ ScanInit(from)
Next == ScanNext(b) /\ UNCHANGED <<b, from>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InvOrdered == Ordered
InvComplete == Complete(b)
InvExact == Exact(b, from)
InvStrict == StrictIsPrefix(b, from)
InvFunction == ended => out = RootSeq(b, from)
PropProgress == [][~ended' => pos' > pos]_vars
Terminates == <>ended

Case == ended => PrintT("@@" \o ToJson([b |-> b, f |-> from, o |-> out, s |-> StrictFrom(b, from)]))
=============================================================================
