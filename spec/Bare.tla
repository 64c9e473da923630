-------------------------------- MODULE Bare --------------------------------
(* Reading messages that have no marker, like DLT messages without a storage *)
(* header: one directly behind the other, as long as they are complete.      *)
EXTENDS Integers, Sequences
CONSTANT RecLen(_, _)      \* length of the complete message at a position, or 0

VARIABLES pos, out, ended
BareInit(f) == pos = f /\ out = <<>> /\ ended = FALSE
Here(b) == IF pos < Len(b) THEN RecLen(b, pos) ELSE 0
Take(b) == ~ended /\ Here(b) > 0 /\ out' = Append(out, <<pos, Here(b)>>) /\ pos' = pos + Here(b) /\ UNCHANGED ended
Stop(b) == ~ended /\ Here(b) = 0 /\ ended' = TRUE /\ UNCHANGED <<pos, out>>

-----------------------------------------------------------------------------
(* What is read is the longest chain of complete messages from the start.    *)
Chain(b, f, c) == \A i \in 1..Len(c) : /\ c[i][1] = (IF i = 1 THEN f ELSE c[i - 1][1] + c[i - 1][2])
                                       /\ c[i][1] < Len(b) /\ c[i][2] = RecLen(b, c[i][1]) /\ c[i][2] > 0
End(f, c) == IF c = <<>> THEN f ELSE c[Len(c)][1] + c[Len(c)][2]
Longest(b, f, c) == Chain(b, f, c) /\ (End(f, c) < Len(b) => RecLen(b, End(f, c)) = 0)
=============================================================================
