----------------------------- MODULE TraceDdDlt -----------------------------
(* Recorded runs of dd_dlt: the results of its reads and writes, its exit    *)
(* code, and its output.                                                     *)
EXTENDS DdDlt, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
vars == <<t, i, rd, eof, wr, failed, exit>>
T == Traces[t]
E == T.ev[i]
Init == t \in 1..Len(Traces) /\ i = 1 /\ IoInit
EINTR == 4
\* <<"read" or "write", requested, result, errno>>
Step == /\ i <= Len(T.ev)
        /\ i' = i + 1 /\ t' = t
        /\ \/ E[1] = "read" /\ E[3] > 0 /\ ReadSome(Len(T.in), E[3])
           \/ E[1] = "read" /\ E[3] = 0 /\ E[2] > 0 /\ ReadEnd(Len(T.in))
           \/ E[1] = "write" /\ E[3] > 0 /\ WriteSome(T.size, E[3])
           \/ E[1] = "write" /\ E[3] = 0 /\ E[2] > 0 /\ Fail      \* nothing can be written any more
           \/ E[3] = 0 /\ E[2] = 0 /\ Interrupted
           \/ E[3] < 0 /\ E[4] = EINTR /\ Interrupted
           \/ E[3] < 0 /\ E[4] # EINTR /\ Fail
\* what was written is a prefix of the messages
Content == T.out = SubSeq(Messages(T.in, T.size, T.ecu, T.app, rd \div T.size), 1, wr)
Exit == /\ i = Len(T.ev) + 1 /\ i' = i + 1 /\ t' = t
        /\ IF T.code = 0 THEN Succeed(Len(T.in), T.size) ELSE GiveUp
        /\ Content
Next == Step \/ Exit
Spec == Init /\ [][Next]_vars
Accepted == i = Len(T.ev) + 2 => PrintT("@@accept " \o ToString(t))
=============================================================================
