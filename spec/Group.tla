------------------------------- MODULE Group --------------------------------
(* Grouping a sequence into maximal runs of related neighbours, one value at *)
(* a time.                                                                   *)
EXTENDS Streams

VARIABLES fed, run, runs, over    \* values fed; first and last position of the current run; the runs so far
groupVars == <<fed, run, runs, over>>
GroupInit == fed = 0 /\ run = <<>> /\ runs = <<>> /\ over = FALSE

\* a run is reported if it has two values, or one that relates to itself
Close(r, s) == IF run[1] < run[2] \/ Rel(r, s[run[1]], s[run[1]]) THEN Append(runs, <<s[run[1]], s[run[2]]>>) ELSE runs

Open(s)      == fed < Len(s) /\ run = <<>> /\ run' = <<1, 1>> /\ fed' = 1 /\ UNCHANGED <<runs, over>>
Extend(r, s) == /\ fed < Len(s) /\ run # <<>> /\ Rel(r, s[fed], s[fed + 1])
                /\ run' = <<run[1], fed + 1>> /\ fed' = fed + 1 /\ UNCHANGED <<runs, over>>
Break(r, s)  == /\ fed < Len(s) /\ run # <<>> /\ ~Rel(r, s[fed], s[fed + 1])
                /\ runs' = Close(r, s) /\ run' = <<fed + 1, fed + 1>> /\ fed' = fed + 1 /\ UNCHANGED over
Last(r, s)   == /\ fed = Len(s) /\ ~over
                /\ runs' = (IF run = <<>> THEN runs ELSE Close(r, s)) /\ run' = <<>> /\ over' = TRUE /\ UNCHANGED fed
GroupNext(r, s) == Open(s) \/ Extend(r, s) \/ Break(r, s) \/ Last(r, s)

\* the maximal runs: intervals i..j of related neighbours that cannot be made longer
MaximalRuns(r, s) ==
  {<<i, j>> \in (1..Len(s)) \X (1..Len(s)) :
     /\ i <= j
     /\ \A k \in i..(j - 1) : Rel(r, s[k], s[k + 1])
     /\ i > 1 => ~Rel(r, s[i - 1], s[i])
     /\ j < Len(s) => ~Rel(r, s[j], s[j + 1])}
\* they are a partition of the sequence
RunsPartition(r, s) ==
  LET R == MaximalRuns(r, s) IN \A k \in 1..Len(s) : Cardinality({x \in R : x[1] <= k /\ k <= x[2]}) = 1
\* reported are those of more than one value, and single values that relate to themselves, in order
Reported(r, s) ==
  LET R == {x \in MaximalRuns(r, s) : x[1] < x[2] \/ Rel(r, s[x[1]], s[x[1]])}
      keys == SortedKeys(R)
  IN  [n \in 1..Len(keys) |-> <<s[keys[n][1]], s[keys[n][2]]>>]
GroupOK(r, s) == over => runs = Reported(r, s) /\ runs = Runs(r, s)
=============================================================================
