---------------------------- MODULE TraceFields -----------------------------
(* Checks the recorded fields of messages: trace t has the buffer b, and for *)
(* some positions what was decoded there: e, a sequence of                   *)
(* <<kind, position, <<>> or <<length, fields>>>>.                           *)
EXTENDS DltFormat, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
vars == <<t, i>>
b == Traces[t].b
e == Traces[t].e

Decoded(kind, p) ==
  IF kind = "entry"
  THEN LET n == EntryLen(b, p) IN IF n > 0 THEN <<n, EntryFields(b, p, n)>> ELSE <<>>
  ELSE LET n == IF kind = "valid" THEN DltLen(b, p) ELSE DltAt(b, p) IN
       IF n > 0 THEN <<n, DltFields(b, p, n)>> ELSE <<>>

Init == t \in 1..Len(Traces) /\ i = 1
Next == i <= Len(e) /\ e[i][3] = Decoded(e[i][1], e[i][2]) /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Accepted == i > Len(e) => PrintT("@@accept " \o ToString(t))
=============================================================================
