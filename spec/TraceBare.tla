------------------------------ MODULE TraceBare -----------------------------
(* Recorded reads of messages without a marker.                              *)
EXTENDS Bare, Kinds, DltFormat, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t
vars == <<t, pos, out, ended>>
b == Traces[t].b
ev == Traces[t].ev

Init == t \in 1..Len(Traces) /\ BareInit(Traces[t].from)
Observed == Take(b) /\ Len(out) < Len(ev) /\ ev[Len(out) + 1] = <<pos, Here(b)>>
Finished == Len(out) = Len(ev) /\ Stop(b)
Next == (Observed \/ Finished) /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

Accepted == ended => PrintT("@@accept " \o ToString(t))
=============================================================================
