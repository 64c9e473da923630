------------------------------ MODULE TracePull -----------------------------
(* Checks recorded runs of iterators: chain c of stages, values s, what came *)
(* out and how many items had been taken then (o), and were at the end (n).  *)
EXTENDS Pull, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t
vars == <<t, pm, got, over, pos, mach, at, result>>
Same(g) == IF g[1] = "groupbyfn" THEN <<"groupby", g[2]>> ELSE g
C(x) == [i \in 1..Len(x) |-> Same(x[i])]
Stages == C(Traces[t].c)
S == Traces[t].s
Init == t \in 1..Len(Traces) /\ PullInit(C(Traces[t].c)) /\ pos = 0 /\ mach = 0 /\ at = 0 /\ result = 0
Out == Yield(Stages, S) /\ Len(got) < Len(Traces[t].o) /\ got'[Len(got')] = Traces[t].o[Len(got')]
Stop == Ends(Stages, S) /\ Len(got) = Len(Traces[t].o) /\ pm'.taken = Traces[t].n
Next == (Out \/ Stop) /\ UNCHANGED <<t, pushVars>>
Spec == Init /\ [][Next]_vars
InvSame == SameAsPush(Stages, S)
Accepted == over => PrintT("@@accept " \o ToString(t))
=============================================================================
