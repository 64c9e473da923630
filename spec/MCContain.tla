------------------------------ MODULE MCContain -----------------------------
(* All small buffers: the lookup agrees with the sequential reading of the   *)
(* whole buffer for all ranges, and the partitioning algorithm cuts between  *)
(* messages.                                                                 *)
EXTENDS Contain, Kinds, TLC, Json
CONSTANTS Alphabet, MinN, MaxN, Nums

VARIABLES b, phase
vars == <<b, phase, pos, out, ended>>
Buffers == UNION {[1..n -> Alphabet] : n \in MinN..MaxN}
Roots == RootSeq(b, 0)

Init == b \in Buffers /\ phase = 0 /\ ScanInit(0)
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<b, scanVars>>
Spec == Init /\ [][Next]_vars

InvLookup == phase = 1 => \A lo \in 0..Len(b) : \A hi \in 0..Len(b) : Lookup(b, lo, hi) = ContainerIn(Roots, lo, hi)
InvAlgorithm == phase = 1 => \A n \in Nums : LET p == Partition(b, n) IN PartitionOK(b, Roots, p) /\ SharesOK(Roots, Len(b), n, p)

Case == phase = 1 =>
  PrintT("@@" \o ToJson([b |-> b, o |-> Roots,
     k |-> {c \in 1..Len(b) : CutAllowed(Roots, Len(b), c)},
     c |-> [lo \in 1..(Len(b) + 1) |-> [hi \in 1..(Len(b) + 1) |-> ContainerIn(Roots, lo - 1, hi - 1)]]]))
=============================================================================
