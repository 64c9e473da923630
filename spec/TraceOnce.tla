------------------------------ MODULE TraceOnce -----------------------------
(* Checks recorded single questions: trace t has the buffer b, and the       *)
(* questions q, each <<kind, offset, answer>>.                               *)
EXTENDS Once, Kinds, DltFormat, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
vars == <<t, i, pos, out, ended>>
b == Traces[t].b
Q == Traces[t].q
Init == t \in 1..Len(Traces) /\ i = 1 /\ ScanInit(0)
Ask == /\ i <= Len(Q) /\ Q[i][3] \in Answers(b, Q[i][1], Q[i][2])
       /\ i' = i + 1 /\ UNCHANGED <<t, pos, out, ended>>
Spec == Init /\ [][Ask]_vars
Accepted == i = Len(Q) + 1 => PrintT("@@accept " \o ToString(t))
=============================================================================
