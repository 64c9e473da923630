------------------------------ MODULE MCDltRev ------------------------------
(* Backward search in all DLT buffers that consist of a few pieces.          *)
EXTENDS RevSearch, Layouts, TLC, Json
CONSTANTS Pieces, MaxPieces, Backs

VARIABLES lay, b, from
vars == <<lay, b, from, before, found, over>>

Init == /\ lay \in LayoutsUpTo(MaxPieces, Pieces) /\ b = Lay(lay)
        /\ from \in {Len(b) + 1 - k : k \in {k \in Backs : k <= Len(b) + 1}} /\ RevInit(b, from)
Next == RevNext(b) /\ UNCHANGED <<lay, b, from>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InvDescending == Descending
InvAll == AllBefore(b, from)
InvLengths == Lengths(b)
Terminates == <>over
Case == over => PrintT("@@" \o ToJson([l |-> lay, b |-> b, f |-> from, o |-> found]))
=============================================================================
