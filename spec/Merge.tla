-------------------------------- MODULE Merge -------------------------------
(* Merging values by a criterion, in any order: the state is a set of        *)
(* <<value, inputs>>; two values that can be merged are replaced by what     *)
(* they give, until no two can be merged.                                    *)
EXTENDS Streams

VARIABLE bag

BagInit(s) == bag = {<<s[i], {i}>> : i \in 1..Len(s)}

MergeTwo(c) ==
  \E x \in bag : \E y \in bag \ {x} :
    /\ CanMerge(c, x[1], y[1])
    /\ bag' = (bag \ {x, y}) \cup {<<Merged(c, x[1], y[1]), x[2] \cup y[2]>>}

Settled(c) == \A x \in bag : \A y \in bag \ {x} : ~CanMerge(c, x[1], y[1])

\* the inputs of the values are a partition of the input
Covers(s) ==
  /\ UNION {x[2] : x \in bag} = 1..Len(s)
  /\ \A x \in bag : x[2] # {} /\ \A y \in bag \ {x} : x[2] \cap y[2] = {}

\* for intervals, a value is the smallest interval that contains its inputs
Hulls(c, s) == c \in {"union", "touch"} =>
  \A x \in bag : /\ \A i \in x[2] : Lo(x[1]) <= Lo(s[i]) /\ Hi(s[i]) <= Hi(x[1])
                 /\ \E i \in x[2] : Lo(s[i]) = Lo(x[1])
                 /\ \E i \in x[2] : Hi(s[i]) = Hi(x[1])

\* keys tell the values apart
Distinct(k) == \A x \in bag : \A y \in bag \ {x} : Key(k, x[1]) # Key(k, y[1])

Out(k) == ByKey(k, {x[1] : x \in bag})

\* for these criteria the order does not matter
Confluent(c) == c \in {"union", "touch", "same", "parity"}
OrderFree(c, s) == Settled(c) /\ Confluent(c) => {x[1] : x \in bag} = MergeAll(c, s, Len(s))
=============================================================================
