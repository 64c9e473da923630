------------------------------- MODULE MCMerge ------------------------------
EXTENDS Merge, Json
CONSTANTS Crits,     \* pairs of a criterion and a key
          Dom,       \* "intervals" or "numbers"
          Hi0,       \* largest number
          SeqLen

Values0 == IF Dom = "intervals" THEN {<<<<a>>, <<b>>>> : a \in 0..Hi0, b \in 0..Hi0} \ {<<<<a>>, <<b>>>> : a \in 1..Hi0, b \in {0}}
           ELSE {<<n>> : n \in 0..Hi0}
IsInterval(v) == IsNum(v) \/ Lo(v) <= Hi(v)
Domain0 == {v \in Values0 : IsInterval(v)}
Seqs == UNION {[1..n -> Domain0] : n \in 0..SeqLen}

VARIABLES crit, in
vars == <<crit, in, bag, pos, mach, at, result>>
Init == crit \in Crits /\ in \in Seqs /\ BagInit(in) /\ pos = 0 /\ mach = 0 /\ at = 0 /\ result = 0
Next == MergeTwo(crit[1]) /\ UNCHANGED <<crit, in, pushVars>>
Spec == Init /\ [][Next]_vars

InvCovers == Covers(in)
InvHulls == Hulls(crit[1], in)
InvDistinct == Settled(crit[1]) => Distinct(crit[2])
InvOrderFree == OrderFree(crit[1], in)
Case == Settled(crit[1]) => PrintT("@@" \o ToJson([c |-> crit, s |-> in, out |-> Out(crit[2])]))

IntervalCrits == {<<"union", "iv">>, <<"touch", "iv">>}
NumberCrits == {<<"same", "w">>, <<"same", "rev">>, <<"parity", "w">>, <<"parity", "mod2">>, <<"near", "w">>, <<"near", "rev">>}
=============================================================================
