----------------------------- MODULE TraceMerge -----------------------------
(* Checks recorded runs of merge: criterion and key c, values s, result o.   *)
(* If the order of merging does not matter, the values are merged as they    *)
(* arrive (MergeArrival); otherwise the result is accepted if merging in some*)
(* order ends with it.                                                       *)
EXTENDS Merge, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, stored, next
vars == <<t, stored, next, bag, pos, mach, at, result>>
c == Traces[t].c
s == Traces[t].s

Init == /\ t \in 1..Len(Traces) /\ pos = 0 /\ mach = 0 /\ at = 0 /\ result = 0
        /\ stored = {} /\ next = 1
        /\ IF Confluent(Traces[t].c[1]) THEN bag = {} ELSE BagInit(Traces[t].s)
Arrive == Confluent(c[1]) /\ next <= Len(s) /\ stored' = MergeInto(c[1], stored, s[next]) /\ next' = next + 1 /\ UNCHANGED bag
AnyOrder == ~Confluent(c[1]) /\ MergeTwo(c[1]) /\ UNCHANGED <<stored, next>>
Next == (Arrive \/ AnyOrder) /\ UNCHANGED <<t, pushVars>>
Spec == Init /\ [][Next]_vars
Done == IF Confluent(c[1]) THEN next > Len(s) /\ ByKey(c[2], stored) = Traces[t].o
        ELSE Settled(c[1]) /\ Out(c[2]) = Traces[t].o
Accepted == Done => PrintT("@@accept " \o ToString(t))
=============================================================================
