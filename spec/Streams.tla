------------------------------ MODULE Streams -------------------------------
(* Pipelines: what they compute, and how they compute it.                    *)
(*                                                                           *)
(* A pipeline is [stages |-> <<stage, ...>>, end |-> end]. A stage is a      *)
(* tuple <<"filter", f>>, <<"map", f>>, <<"groupby", r>> or                  *)
(* <<"merge", c, k>>; an end is <<"count">>, <<"sum">>, <<"collect">>,       *)
(* <<"fold">>, <<"fork", pipe, pipe>> or <<"split", k, pipe>>.               *)
(*                                                                           *)
(* Denote(pipe, s) is the composition of the stages, each applied to a       *)
(* whole sequence. The push machine (Feed, Flush, Finish) gets one value at  *)
(* a time: stages keep values back, and hand them over when the input ends.  *)
EXTENDS Values, FiniteSets, TLC

-----------------------------------------------------------------------------
(* The meaning of the stages, on whole sequences.                            *)

\* the position at which the maximal run that starts at i ends
RECURSIVE RunEnd(_, _, _)
RunEnd(r, s, i) == IF i < Len(s) /\ Rel(r, s[i], s[i+1]) THEN RunEnd(r, s, i + 1) ELSE i

RECURSIVE RunsFrom(_, _, _)
RunsFrom(r, s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET j == RunEnd(r, s, i) IN
       (IF i < j \/ Rel(r, s[i], s[i]) THEN <<<<s[i], s[j]>>>> ELSE <<>>)
         \o RunsFrom(r, s, j + 1)
Runs(r, s) == RunsFrom(r, s, 1)

\* merges v into the set M, of which no two can be merged
RECURSIVE MergeInto(_, _, _)
MergeInto(c, M, v) ==
  IF \E m \in M : CanMerge(c, m, v)
  THEN LET m == CHOOSE m \in M : CanMerge(c, m, v) IN MergeInto(c, M \ {m}, Merged(c, m, v))
  ELSE M \cup {v}

RECURSIVE MergeAll(_, _, _)
MergeAll(c, s, i) == IF i = 0 THEN {} ELSE MergeInto(c, MergeAll(c, s, i - 1), s[i])

ByKey(k, M) ==
  LET keys == SortedKeys({Key(k, m) : m \in M})
  IN  [i \in 1..Len(keys) |-> CHOOSE m \in M : Key(k, m) = keys[i]]

Stage(g, s) ==
  CASE g[1] = "filter"  -> SelectSeq(s, LAMBDA v : Pred(g[2], v))
    [] g[1] = "map"     -> [i \in 1..Len(s) |-> MapF(g[2], s[i])]
    [] g[1] = "groupby" -> Runs(g[2], s)
    [] g[1] = "merge"   -> ByKey(g[3], MergeAll(g[2], s, Len(s)))

RECURSIVE Compose(_, _, _)
Compose(stages, i, s) == IF i > Len(stages) THEN s ELSE Compose(stages, i + 1, Stage(stages[i], s))

RECURSIVE SumOf(_, _)
SumOf(s, i) == IF i = 0 THEN 0 ELSE SumOf(s, i - 1) + W(s[i])

FoldStep(acc, v) == (acc * 3 + W(v) + 1) % 1000
RECURSIVE FoldOf(_, _)
FoldOf(s, i) == IF i = 0 THEN 7 ELSE FoldStep(FoldOf(s, i - 1), s[i])

RECURSIVE Denote(_, _)
EndOf(e, s) ==
  CASE e[1] = "count"   -> Len(s)
    [] e[1] = "sum"     -> SumOf(s, Len(s))
    [] e[1] = "collect" -> s
    [] e[1] = "fold"    -> FoldOf(s, Len(s))
    [] e[1] = "fork"    -> <<Denote(e[2], s), Denote(e[3], s)>>
    [] e[1] = "split"   ->
         LET keys == SortedKeys({Key(e[2], s[i]) : i \in 1..Len(s)})
         IN  [i \in 1..Len(keys) |->
                <<keys[i], Denote(e[3], SelectSeq(s, LAMBDA v : Key(e[2], v) = keys[i]))>>]
Denote(p, s) == EndOf(p.end, Compose(p.stages, 1, s))

-----------------------------------------------------------------------------
(* The push machine. A stage keeps: a groupby the first and last value of    *)
(* the current run, a merge its values, and what is left of them when it     *)
(* hands them over.                                                          *)

StageInit(g) == [run |-> <<>>, vals |-> {}, left |-> <<>>, flushing |-> FALSE]

\* one value in: the new state, and at most one value out
Adapt(g, st, v) ==
  CASE g[1] = "filter" -> [st |-> st, out |-> IF Pred(g[2], v) THEN <<v>> ELSE <<>>]
    [] g[1] = "map"    -> [st |-> st, out |-> <<MapF(g[2], v)>>]
    [] g[1] = "groupby" ->
         IF st.run = <<>> THEN [st |-> [st EXCEPT !.run = <<v>>], out |-> <<>>]
         ELSE LET last == st.run[Len(st.run)] IN
              IF Rel(g[2], last, v) THEN [st |-> [st EXCEPT !.run = <<st.run[1], v>>], out |-> <<>>]
              ELSE [st |-> [st EXCEPT !.run = <<v>>],
                    out |-> IF Len(st.run) = 2 \/ Rel(g[2], last, last) THEN <<<<st.run[1], last>>>> ELSE <<>>]
    [] g[1] = "merge"  -> [st |-> [st EXCEPT !.vals = MergeInto(g[2], st.vals, v)], out |-> <<>>]

\* the input has ended: at most one of the values that are kept back, or the stage is empty
Flush(g, st) ==
  CASE g[1] \in {"filter", "map"} -> [st |-> st, out |-> <<>>, empty |-> TRUE]
    [] g[1] = "groupby" ->
         IF st.run = <<>> THEN [st |-> st, out |-> <<>>, empty |-> TRUE]
         ELSE LET last == st.run[Len(st.run)] IN
              [st |-> [st EXCEPT !.run = <<>>],
               out |-> IF Len(st.run) = 2 \/ Rel(g[2], last, last) THEN <<<<st.run[1], last>>>> ELSE <<>>,
               empty |-> FALSE]
    [] g[1] = "merge" ->
         LET left == IF st.flushing THEN st.left ELSE ByKey(g[3], st.vals) IN
         IF left = <<>> THEN [st |-> st, out |-> <<>>, empty |-> TRUE]
         ELSE [st |-> [st EXCEPT !.flushing = TRUE, !.left = Tail(left)], out |-> <<left[1]>>, empty |-> FALSE]

RECURSIVE Machine(_), ReduceInit(_), Reduce(_, _, _), Push(_, _, _, _), Finalize(_, _, _), ReduceEnd(_, _)

\* the state of a pipeline: the states of its stages and of its end
Machine(p) == [st |-> [i \in 1..Len(p.stages) |-> StageInit(p.stages[i])], red |-> ReduceInit(p.end)]

ReduceInit(e) ==
  CASE e[1] \in {"count", "sum"} -> 0
    [] e[1] = "fold"    -> 7
    [] e[1] = "collect" -> <<>>
    [] e[1] = "fork"    -> <<Machine(e[2]), Machine(e[3])>>
    [] e[1] = "split"   -> <<>>                  \* a sequence of <<key, machine>>, by time of first use

Reduce(e, r, v) ==
  CASE e[1] = "count"   -> r + 1
    [] e[1] = "sum"     -> r + W(v)
    [] e[1] = "fold"    -> FoldStep(r, v)
    [] e[1] = "collect" -> Append(r, v)
    [] e[1] = "fork"    -> <<Push(e[2], r[1], 1, v), Push(e[3], r[2], 1, v)>>
    [] e[1] = "split"   ->
         LET k == Key(e[2], v)
             old == {i \in 1..Len(r) : r[i][1] = k}
         IN  IF old = {} THEN Append(r, <<k, Push(e[3], Machine(e[3]), 1, v)>>)
             ELSE LET i == CHOOSE i \in old : TRUE IN [r EXCEPT ![i] = <<k, Push(e[3], r[i][2], 1, v)>>]

\* value v enters stage i; behind the last stage it enters the end
Push(p, m, i, v) ==
  IF i > Len(p.stages) THEN [m EXCEPT !.red = Reduce(p.end, m.red, v)]
  ELSE LET a == Adapt(p.stages[i], m.st[i], v)
           n == [m EXCEPT !.st[i] = a.st]
       IN  IF a.out = <<>> THEN n ELSE Push(p, n, i + 1, a.out[1])

\* stage i and the ones behind it hand over what they keep
Finalize(p, m, i) ==
  IF i > Len(p.stages) THEN ReduceEnd(p.end, m.red)
  ELSE LET f == Flush(p.stages[i], m.st[i])
           n == [m EXCEPT !.st[i] = f.st]
       IN  IF f.empty THEN Finalize(p, n, i + 1)
           ELSE Finalize(p, IF f.out = <<>> THEN n ELSE Push(p, n, i + 1, f.out[1]), i)

ReduceEnd(e, r) ==
  CASE e[1] \in {"count", "sum", "fold", "collect"} -> r
    [] e[1] = "fork"  -> <<Finalize(e[2], r[1], 1), Finalize(e[3], r[2], 1)>>
    [] e[1] = "split" ->
         LET keys == SortedKeys({r[i][1] : i \in 1..Len(r)})
         IN  [j \in 1..Len(keys) |->
                <<keys[j], Finalize(e[3], r[CHOOSE i \in 1..Len(r) : r[i][1] = keys[j]][2], 1)>>]

-----------------------------------------------------------------------------
(* The machine as a state machine.                                           *)

VARIABLES pos,      \* number of values fed
          mach,     \* state of the pipeline
          at,       \* the stage that is being flushed; 0: not yet
          result    \* <<>>, or <<result>>
pushVars == <<pos, mach, at, result>>

PushInit(p) == pos = 0 /\ mach = Machine(p) /\ at = 0 /\ result = <<>>

Feed(p, s) ==
  /\ at = 0 /\ pos < Len(s)
  /\ pos' = pos + 1
  /\ mach' = Push(p, mach, 1, s[pos + 1])
  /\ UNCHANGED <<at, result>>

EndOfInput(p, s) ==
  /\ at = 0 /\ pos = Len(s)
  /\ at' = 1
  /\ UNCHANGED <<pos, mach, result>>

FlushStage(p) ==
  /\ at \in 1..Len(p.stages)
  /\ LET f == Flush(p.stages[at], mach.st[at])
         n == [mach EXCEPT !.st[at] = f.st]
     IN  IF f.empty THEN mach' = n /\ at' = at + 1
         ELSE mach' = (IF f.out = <<>> THEN n ELSE Push(p, n, at + 1, f.out[1])) /\ at' = at
  /\ UNCHANGED <<pos, result>>

Finish(p) ==
  /\ at = Len(p.stages) + 1 /\ result = <<>>
  /\ result' = <<ReduceEnd(p.end, mach.red)>>
  /\ UNCHANGED <<pos, mach, at>>

PushNext(p, s) == Feed(p, s) \/ EndOfInput(p, s) \/ FlushStage(p) \/ Finish(p)

\* What the pipeline computes is the composition of its stages.
Compositional(p, s) == result # <<>> => result[1] = Denote(p, s)

\* At every moment, flushing would give the composition on what was fed so far.
NothingLost(p, s) == at = 0 => Finalize(p, mach, 1) = Denote(p, SubSeq(s, 1, pos))
=============================================================================
