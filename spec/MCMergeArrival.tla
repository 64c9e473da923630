--------------------------- MODULE MCMergeArrival ---------------------------
EXTENDS MergeArrival
CONSTANTS Crits, Dom, Hi0, SeqLen
Values0 == IF Dom = "intervals" THEN {<<<<a>>, <<b>>>> : a \in 0..Hi0, b \in 0..Hi0} ELSE {<<n>> : n \in 0..Hi0}
Domain0 == {v \in Values0 : IsNum(v) \/ Lo(v) <= Hi(v)}
Seqs == UNION {[1..n -> Domain0] : n \in 0..SeqLen}

VARIABLES crit, in
vars == <<crit, in, stored, moving, next, pos, mach, at, result>>
Init == crit \in Crits /\ in \in Seqs /\ ArrInit /\ pos = 0 /\ mach = 0 /\ at = 0 /\ result = 0
Next == ArrNext(crit[1], in) /\ UNCHANGED <<crit, in, pushVars>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Free == INSTANCE Merge WITH bag <- AllVals(in)
\* the run is a run of merging in any order, and it ends settled
Refines == Free!BagInit(in) /\ [][Free!MergeTwo(crit[1])]_(AllVals(in))
EndsSettled == next > Len(in) /\ moving = {} => Free!Settled(crit[1])
StoredSettled == \A x \in stored : \A y \in stored \ {x} : ~CanMerge(crit[1], x[1], y[1])
Ends == <>(next > Len(in) /\ moving = {})

IntervalCrits == {<<"union", "iv">>, <<"touch", "iv">>}
NumberCrits == {<<"same", "w">>, <<"parity", "w">>, <<"near", "w">>}
=============================================================================
