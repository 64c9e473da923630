------------------------------ MODULE TraceScan -----------------------------
(* Checks recorded runs of the readers: trace t has the buffer b, the start  *)
(* offset from, the reader ("scan" or "strict") and the recorded messages    *)
(* ev, each <<position, length>>. It is accepted if it is a behaviour of Scan*)
EXTENDS Scan, Kinds, DltFormat, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, strict
vars == <<t, strict, pos, out, ended>>
b == Traces[t].b
ev == Traces[t].ev

Init == t \in 1..Len(Traces) /\ strict = (Traces[t].r = "strict") /\ ScanInit(Traces[t].from)

\* what was recorded is what happens
Observed == Emit(b) /\ Len(out) < Len(ev) /\ ev[Len(out) + 1] = <<pos, LenAt(b, pos)>>
Silent == ~strict /\ (Damaged(b) \/ Skip(b))
Stop == /\ ~ended /\ Len(out) = Len(ev)
        /\ IF strict THEN ~Readable(b, pos) ELSE NextMarker(b, pos) = NoPos
        /\ ended' = TRUE /\ UNCHANGED <<pos, out>>
Next == (Observed \/ Silent \/ Stop) /\ UNCHANGED <<t, strict>>
Spec == Init /\ [][Next]_vars

InvOrdered == Ordered
Accepted == ended => PrintT("@@accept " \o ToString(t))
=============================================================================
