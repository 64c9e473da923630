---------------------------- MODULE TraceIterLife ---------------------------
(* Recorded lives of iterators: trace t has the length n of the buffer, and  *)
(* runs, each with its direction d, the items it yielded, and how often it   *)
(* has yielded an item behind its end (a).                                   *)
EXTENDS IterLife, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
vars == <<t, i, items, over, asked>>
n == Traces[t].n
Runs == Traces[t].runs
Run == Runs[i]
Init == t \in 1..Len(Traces) /\ i = 1 /\ LifeInit
Observed == i <= Len(Runs) /\ Len(items) < Len(Run.it) /\ Yield(n, Run.d, Run.it[Len(items) + 1]) /\ UNCHANGED <<t, i>>
Ended == i <= Len(Runs) /\ Len(items) = Len(Run.it) /\ Run.a = 0 /\ Cease /\ UNCHANGED <<t, i>>
\* the next iterator
NextRun == over /\ i <= Len(Runs) /\ i' = i + 1 /\ items' = <<>> /\ over' = FALSE /\ asked' = 0 /\ UNCHANGED t
Next == Observed \/ Ended \/ NextRun
Spec == Init /\ [][Next]_vars
InvDistinct == Distinct
Accepted == i = Len(Runs) + 1 => PrintT("@@accept " \o ToString(t))
=============================================================================
