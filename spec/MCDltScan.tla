------------------------------ MODULE MCDltScan -----------------------------
(* Sequential reading of all DLT buffers that consist of a few pieces.       *)
EXTENDS Contain, Layouts, TLC, Json
CONSTANTS Pieces, MaxPieces, Froms

VARIABLES lay, b, from
vars == <<lay, b, from, pos, out, ended>>

Init == /\ lay \in LayoutsUpTo(MaxPieces, Pieces) /\ b = Lay(lay)
        /\ from \in {f \in Froms : f <= Len(b) + 1} /\ ScanInit(from)
Next == ScanNext(b) /\ UNCHANGED <<lay, b, from>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InvOrdered == Ordered
InvComplete == Complete(b)
InvExact == Exact(b, from)
InvStrict == StrictIsPrefix(b, from)
Terminates == <>ended
PropProgress == [][~ended' => pos' > pos]_vars

Case == ended => PrintT("@@" \o ToJson([l |-> lay, b |-> b, f |-> from, o |-> out, s |-> StrictFrom(b, from)]))
=============================================================================
