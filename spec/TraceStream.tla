----------------------------- MODULE TraceStream ----------------------------
(* Checks recorded runs of pipelines: pipeline p, values s, result r.        *)
EXTENDS Streams, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t
vars == <<t, pos, mach, at, result>>
P == Traces[t].p
S == Traces[t].s
Init == t \in 1..Len(Traces) /\ PushInit(Traces[t].p)
Next == PushNext(P, S) /\ (result' # <<>> => result'[1] = Traces[t].r) /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
InvComposition == Compositional(P, S)
Accepted == result # <<>> => PrintT("@@accept " \o ToString(t))
=============================================================================
