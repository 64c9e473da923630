---------------------------- MODULE MCDltContain ----------------------------
(* Lookup and partitioning of all DLT buffers that consist of a few pieces.  *)
EXTENDS Contain, Layouts, TLC, Json
CONSTANTS Pieces, MaxPieces, Widths

VARIABLES lay, b, phase
vars == <<lay, b, phase, pos, out, ended>>
Init == lay \in LayoutsUpTo(MaxPieces, Pieces) /\ b = Lay(lay) /\ phase = 0 /\ ScanInit(0)
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<lay, b, scanVars>>
Spec == Init /\ [][Next]_vars

Roots == RootSeq(b, 0)
Ranges(n) == {<<lo, lo + w>> : lo \in 0..n, w \in Widths} \cup {<<lo, n>> : lo \in 0..n}
Cs(rs, n) == {<<r[1], r[2], ContainerIn(rs, r[1], r[2])>> : r \in {r \in Ranges(n) : r[2] <= n + 1}}
InvWithin == phase = 1 => LET rs == Roots IN \A x \in Cs(rs, Len(b)) : x[3] # <<>> => x[3][1] < x[1] /\ x[2] <= x[3][1] + x[3][2]

Case == phase = 1 =>
  LET rs == Roots IN
  PrintT("@@" \o ToJson([l |-> lay, b |-> b, o |-> rs,
     k |-> {c \in 1..Len(b) : CutAllowed(rs, Len(b), c)},
     c |-> {<<x[1], x[2]>> \o x[3] : x \in Cs(rs, Len(b))}]))
=============================================================================
