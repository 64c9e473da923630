----------------------------- MODULE TraceFile ------------------------------
(* Recorded accesses to files: results of the calls, and what the caller     *)
(* got.                                                                      *)
EXTENDS FileAccess, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
vars == <<t, i, open, got, end, mapped, failed, result>>
T == Traces[t]
E == T.ev[i]
L == Len(T.file)
EINTR == 4
Init == t \in 1..Len(Traces) /\ i = 1 /\ FaInit
Step == /\ i <= Len(T.ev) /\ i' = i + 1 /\ t' = t
        /\ \/ E[1] = "open" /\ E[3] > 0 /\ Open
           \/ E[1] = "stat" /\ E[3] > 0 /\ Stat
           \/ E[1] = "mmap" /\ E[3] >= 0 /\ Map(L, E[3])
           \/ E[1] = "read" /\ E[3] > 0 /\ Read(L, E[3])
           \/ E[1] = "read" /\ E[3] = 0 /\ E[2] > 0 /\ ReadEnd(L)
           \/ E[1] = "read" /\ E[2] = 0 /\ Stat
           \/ E[3] < 0 /\ E[4] = EINTR /\ Interrupted
           \* reading works without what stat says
           \/ E[3] < 0 /\ E[4] # EINTR /\ E[1] # "stat" /\ Fail
           \/ E[3] < 0 /\ E[4] # EINTR /\ E[1] = "stat" /\ (Fail \/ Interrupted)
Exit == /\ i = Len(T.ev) + 1 /\ i' = i + 1 /\ t' = t
        /\ IF T.ok THEN Give(L) /\ T.len = L /\ T.data = T.file ELSE Refuse
Next == Step \/ Exit
Spec == Init /\ [][Next]_vars
Accepted == i = Len(T.ev) + 2 => PrintT("@@accept " \o ToString(t))
=============================================================================
