---------------------------- MODULE TraceHeaders ----------------------------
(* Checks headers that were built by the code: c what was built, e the result*)
EXTENDS DltFormat, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, ok
vars == <<t, ok>>
H == INSTANCE MCHeaders WITH Full <- TRUE, c <- 0, phase <- 0

Init == t \in 1..Len(Traces) /\ ok = FALSE
Next == ~ok /\ Traces[t].e = H!Expected(Traces[t].c) /\ ok' = TRUE /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Accepted == ok => PrintT("@@accept " \o ToString(t))
=============================================================================
