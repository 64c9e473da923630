------------------------------ MODULE TraceRev ------------------------------
(* Checks recorded backward searches.                                        *)
EXTENDS RevSearch, Kinds, DltFormat, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t
vars == <<t, before, found, over>>
b == Traces[t].b
ev == Traces[t].ev
Init == t \in 1..Len(Traces) /\ RevInit(b, Traces[t].from)
Observed == RevEmit(b) /\ Len(found) < Len(ev) /\ found'[Len(found')] = ev[Len(found')]
Stop == RevEnd(b) /\ Len(found) = Len(ev)
Next == (Observed \/ RevDamaged(b) \/ Stop) /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
InvDescending == Descending
Accepted == over => PrintT("@@accept " \o ToString(t))
=============================================================================
