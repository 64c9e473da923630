----------------------------- MODULE TraceGroup -----------------------------
(* Checks recorded runs of groupby: relation r, values s, reported runs o.   *)
EXTENDS Group, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t
vars == <<t, fed, run, runs, over, pos, mach, at, result>>
Init == t \in 1..Len(Traces) /\ GroupInit /\ pos = 0 /\ mach = 0 /\ at = 0 /\ result = 0
\* a run is reported as it was recorded
Same == \A k \in 1..Len(runs') : k <= Len(Traces[t].o) /\ runs'[k] = Traces[t].o[k]
Next == GroupNext(Traces[t].r, Traces[t].s) /\ Same /\ (over' => Len(runs') = Len(Traces[t].o)) /\ UNCHANGED <<t, pushVars>>
Spec == Init /\ [][Next]_vars
Accepted == over => PrintT("@@accept " \o ToString(t))
=============================================================================
