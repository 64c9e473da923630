----------------------------- MODULE MCPartition ----------------------------
(* All ways of cutting all small buffers: wherever the cuts are made, as     *)
(* long as none is inside a message, no message is lost.                     *)
EXTENDS Contain, Kinds, TLC
CONSTANTS Alphabet, MinN, MaxN

VARIABLES b, cuts, done
vars == <<b, cuts, done, pos, out, ended>>
Buffers == UNION {[1..n -> Alphabet] : n \in MinN..MaxN}
Roots == RootSeq(b, 0)

Init == b \in Buffers /\ cuts = <<>> /\ done = (Len(b) = 0) /\ ScanInit(0)
Cut(c) == /\ ~done
          /\ c > pos /\ CutAllowed(Roots, Len(b), c)
          /\ cuts' = Append(cuts, c - pos) /\ pos' = c
          /\ done' = (c = Len(b))
          /\ UNCHANGED <<b, out, ended>>
Next == \E c \in 1..Len(b) : Cut(c)
Spec == Init /\ [][Next]_vars

InvAnyPartition == done => PartitionOK(b, Roots, cuts) /\ ReadParts(b, cuts) = Roots
\* the end can always be reached
InvNotStuck == ~done => CutAllowed(Roots, Len(b), Len(b))
=============================================================================
