---------------------------- MODULE TraceContain ----------------------------
(* Checks recorded lookups (q: <<lo, hi, result>>) and partitionings         *)
(* (parts: lengths of partitions, nums: how many were asked for, 0 if not    *)
(* known) of a buffer: it is first read sequentially, then every lookup and  *)
(* every cut has to agree with that.                                         *)
EXTENDS Contain, Kinds, DltFormat, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, qi, pi, at, ci
vars == <<t, qi, pi, at, ci, pos, out, ended>>
b == Traces[t].b
Q == Traces[t].q
P == Traces[t].parts            \* a sequence of partitionings

Init == t \in 1..Len(Traces) /\ qi = 1 /\ pi = 1 /\ ci = 1 /\ at = 0 /\ ScanInit(0)
Read == ScanNext(b) /\ UNCHANGED <<t, qi, pi, at, ci>>
Look == /\ ended /\ qi <= Len(Q)
        /\ ContainerIn(out, Q[qi][1], Q[qi][2]) = Q[qi][3]
        /\ qi' = qi + 1 /\ UNCHANGED <<t, pi, at, ci, scanVars>>
\* the next partition
Cut == /\ ended /\ qi > Len(Q) /\ pi <= Len(P) /\ ci <= Len(P[pi])
       /\ P[pi][ci] > 0 /\ CutAllowed(out, Len(b), at + P[pi][ci])
       /\ (Traces[t].nums[pi] > 0 => ShareOK(out, Len(b), Traces[t].nums[pi], at, P[pi][ci]))
       /\ (Traces[t].nums[pi] > 0 /\ ci > 1 => PairOK(Len(b), Traces[t].nums[pi], P[pi][ci - 1], P[pi][ci]))
       /\ at' = at + P[pi][ci] /\ ci' = ci + 1 /\ UNCHANGED <<t, qi, pi, scanVars>>
\* the partitions are the whole buffer
Whole == /\ ended /\ qi > Len(Q) /\ pi <= Len(P) /\ ci = Len(P[pi]) + 1
         /\ at = Len(b)
         /\ pi' = pi + 1 /\ at' = 0 /\ ci' = 1 /\ UNCHANGED <<t, qi, scanVars>>
Next == Read \/ Look \/ Cut \/ Whole
Spec == Init /\ [][Next]_vars
Accepted == (ended /\ qi > Len(Q) /\ pi > Len(P)) => PrintT("@@accept " \o ToString(t))
=============================================================================
