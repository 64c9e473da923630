---------------------------- MODULE MergeArrival ----------------------------
(* Merging as values arrive: a new value is merged with stored values as     *)
(* long as it can be merged with one, and then stored itself.                *)
(* Every such run is a run of Merge.                                         *)
EXTENDS Streams

VARIABLES stored, moving, next
arrVars == <<stored, moving, next>>

ArrInit == stored = {} /\ moving = {} /\ next = 1

Arrive(s) == /\ moving = {} /\ next <= Len(s)
             /\ moving' = {<<s[next], {next}>>} /\ next' = next + 1
             /\ UNCHANGED stored
MergeStored(c) == \E x \in moving : \E m \in stored :
                    /\ CanMerge(c, m[1], x[1])
                    /\ stored' = stored \ {m}
                    /\ moving' = {<<Merged(c, m[1], x[1]), m[2] \cup x[2]>>}
                    /\ UNCHANGED next
Store(c) == \E x \in moving :
              /\ \A m \in stored : ~CanMerge(c, m[1], x[1])
              /\ stored' = stored \cup {x} /\ moving' = {}
              /\ UNCHANGED next
ArrNext(c, s) == Arrive(s) \/ MergeStored(c) \/ Store(c)

Rest(s) == {<<s[i], {i}>> : i \in next..Len(s)}
AllVals(s) == stored \cup moving \cup Rest(s)
=============================================================================
