----------------------------- MODULE MCStretch ------------------------------
(* Reading, searching, lookups and cuts commute with stretching, for all     *)
(* small buffers, quiet positions and lengths of the run.                    *)
EXTENDS Stretch, Patterns, Kinds, TLC
CONSTANTS Alphabet, MinN, MaxN, MaxK, Pats

VARIABLES b, g, k
vars == <<b, g, k>>
Buffers == UNION {[1..n -> Alphabet] : n \in MinN..MaxN}
Init == /\ b \in Buffers /\ g \in 0..(Len(b) - 1) /\ k \in 1..MaxK /\ Quiet(b, g, k)
        /\ pos = 0 /\ out = <<>> /\ ended = TRUE /\ before = 0 /\ found = <<>> /\ over = TRUE
Next == UNCHANGED <<vars, scanVars, revVars>>
Spec == Init /\ [][Next]_<<vars, scanVars, revVars>>

S == Stretched(b, g, k)
U(p) == Up(p, g, k)
D(p) == Down(p, g, k)
InvRead == \A f \in 0..Len(S) : RootSeq(S, f) = Moved(RootSeq(b, D(f)), g, k)
InvStrictRead == \A f \in 0..Len(b) : StrictFrom(S, U(f)) = Moved(StrictFrom(b, f), g, k)
InvRev == \A f \in 0..Len(S) : RevSeq(S, f) = Moved(RevSeq(b, D(f)), g, k)
InvLookup == LET r == RootSeq(b, 0) IN \A lo \in 0..Len(S) : \A hi \in (lo + 1)..Len(S) :
               ContainerIn(RootSeq(S, 0), lo, hi) = MovedRange(ContainerIn(r, D(lo), D(hi - 1) + 1), g, k)
InvCuts == LET r == RootSeq(b, 0) IN \A c \in 1..Len(S) : CutAllowed(RootSeq(S, 0), Len(S), c) <=> (c \in (g + 1)..(g + k) \/ CutAllowed(r, Len(b), D(c)))
\* searches, if no marker starts inside a message
InvGrep == Unnested(b) => \A p \in Pats : \A f \in 0..Len(b) :
             LET r == Small[p].r IN
             /\ GrepOf(S, RootSeq(S, 0), r, U(f), 1) = Moved(GrepOf(b, RootSeq(b, 0), r, f, 1), g, k)
             /\ CaptureOf(S, RootSeq(S, 0), r, U(f), 1) = LET c == CaptureOf(b, RootSeq(b, 0), r, f, 1) IN [i \in 1..Len(c) |-> <<U(c[i][1]), U(c[i][2]), U(c[i][3])>>]
=============================================================================
