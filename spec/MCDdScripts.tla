---------------------------- MODULE MCDdScripts -----------------------------
(* What the operating system does in the calls of dd_dlt: every sequence of  *)
(* the given steps, for reads and writes.                                    *)
EXTENDS DdMessages, TLC, Json
CONSTANTS MaxSteps
Reads == {"1", "2", "5", "i", "e5"}
Writes == {"1", "33", "34", "35", "i", "z", "e28", "e32"}
VARIABLES rs, ws
vars == <<rs, ws>>
Seqs(S) == UNION {[1..k -> S] : k \in 0..MaxSteps}
Init == rs \in Seqs(Reads) /\ ws \in Seqs(Writes)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Case == PrintT("@@" \o ToJson([rs |-> rs, ws |-> ws]))
=============================================================================
