-------------------------------- MODULE Pull --------------------------------
(* Stages applied to an iterator: every call of next() takes just as many    *)
(* items from the source as the next value needs.                            *)
(* Besides the stages of Streams there are stages of a user:                 *)
(*   <<"hold", n>>  keeps all values back, and stops the stream at weight n  *)
(*   <<"pass", n>>  passes all values on, and stops the stream at weight n   *)
(*   <<"gaps">>     keeps odd values back, and hands them over with gaps     *)
EXTENDS Streams

UserStage(g) == g[1] \in {"hold", "pass", "gaps"}
Stops(g, v) == g[1] \in {"hold", "pass"} /\ W(v) = g[2]

\* the meaning of a stage on a whole sequence
FirstStop(g, s) == IF \E i \in 1..Len(s) : Stops(g, s[i])
                   THEN CHOOSE i \in 1..Len(s) : Stops(g, s[i]) /\ \A j \in 1..(i-1) : ~Stops(g, s[j])
                   ELSE Len(s) + 1
PullStage(g, s) ==
  CASE g[1] \in {"hold", "pass"} -> SubSeq(s, 1, FirstStop(g, s) - 1)
    [] g[1] = "gaps" -> SelectSeq(s, LAMBDA v : W(v) % 2 = 0) \o SelectSeq(s, LAMBDA v : W(v) % 2 = 1)
    [] OTHER -> Stage(g, s)

RECURSIVE PullAll(_, _, _)
PullAll(stages, i, s) == IF i > Len(stages) THEN s ELSE PullAll(stages, i + 1, PullStage(stages[i], s))

-----------------------------------------------------------------------------
PStageInit(g) == IF UserStage(g) THEN <<>> ELSE StageInit(g)

PAdapt(g, st, v) ==
  IF Stops(g, v) THEN [st |-> st, out |-> <<>>, stop |-> TRUE]
  ELSE CASE g[1] = "pass" -> [st |-> st, out |-> <<v>>, stop |-> FALSE]
         [] g[1] = "hold" -> [st |-> Append(st, v), out |-> <<>>, stop |-> FALSE]
         [] g[1] = "gaps" -> IF W(v) % 2 = 0 THEN [st |-> st, out |-> <<v>>, stop |-> FALSE]
                             ELSE [st |-> Append(st, v), out |-> <<>>, stop |-> FALSE]
         [] OTHER -> LET a == Adapt(g, st, v) IN [st |-> a.st, out |-> a.out, stop |-> FALSE]

PFlush(g, st) ==
  IF UserStage(g)
  THEN IF st = <<>> THEN [st |-> st, out |-> <<>>, empty |-> TRUE]
       ELSE [st |-> Tail(st), out |-> <<Head(st)>>, empty |-> FALSE]
  ELSE Flush(g, st)

\* a machine: items taken, states of the stages, and which of them still take input
PMachine(stages) == [taken |-> 0, st |-> [i \in 1..Len(stages) |-> PStageInit(stages[i])],
                     live |-> [i \in 1..Len(stages) |-> TRUE]]

RECURSIVE PNext(_, _, _, _), PDrain(_, _, _)

\* next() of stage i: the machine behind it, and <<value>> or <<>> at the end
PNext(stages, s, m, i) ==
  IF i = 0 THEN IF m.taken < Len(s) THEN [m |-> [m EXCEPT !.taken = @ + 1], out |-> <<s[m.taken + 1]>>]
                ELSE [m |-> m, out |-> <<>>]
  ELSE IF ~m.live[i] THEN PDrain(stages, m, i)
  ELSE LET r == PNext(stages, s, m, i - 1) IN
       IF r.out = <<>> THEN PDrain(stages, [r.m EXCEPT !.live[i] = FALSE], i)
       ELSE LET a == PAdapt(stages[i], r.m.st[i], r.out[1])
                n == [r.m EXCEPT !.st[i] = a.st]
            IN  CASE a.stop       -> PDrain(stages, [n EXCEPT !.live[i] = FALSE], i)
                  [] a.out # <<>> -> [m |-> n, out |-> a.out]
                  [] OTHER        -> PNext(stages, s, n, i)

\* stage i gets no more input: what it keeps
PDrain(stages, m, i) ==
  LET f == PFlush(stages[i], m.st[i])
      n == [m EXCEPT !.st[i] = f.st]
  IN  CASE f.empty       -> [m |-> n, out |-> <<>>]
        [] f.out # <<>>  -> [m |-> n, out |-> f.out]
        [] OTHER         -> PDrain(stages, n, i)

-----------------------------------------------------------------------------
VARIABLES pm, got, over
pullVars == <<pm, got, over>>

PullInit(stages) == pm = PMachine(stages) /\ got = <<>> /\ over = FALSE

\* next() gives a value: got keeps it, and the number of items taken so far
Yield(stages, s) ==
  /\ ~over
  /\ LET r == PNext(stages, s, pm, Len(stages)) IN
       /\ r.out # <<>>
       /\ pm' = r.m
       /\ got' = Append(got, <<r.out[1], r.m.taken>>)
  /\ UNCHANGED over

\* next() gives nothing, from now on
Ends(stages, s) ==
  /\ ~over
  /\ LET r == PNext(stages, s, pm, Len(stages)) IN r.out = <<>> /\ pm' = r.m
  /\ over' = TRUE
  /\ UNCHANGED got

PullNext(stages, s) == Yield(stages, s) \/ Ends(stages, s)

Values(g) == [i \in 1..Len(g) |-> g[i][1]]

\* same values in the same order as on the whole sequence
SameAsPush(stages, s) == over => Values(got) = PullAll(stages, 1, s)

\* an ended iterator stays ended
StaysEnded(stages, s) == over => PNext(stages, s, pm, Len(stages)).out = <<>>

\* number of values that a chain without user stages gives before the end of its input is known
Given(stages, s, n) ==
  LET RECURSIVE Fed(_)
      Fed(k) == IF k = 0 THEN Machine([stages |-> stages, end |-> <<"count">>])
                ELSE Push([stages |-> stages, end |-> <<"count">>], Fed(k - 1), 1, s[k])
  IN  Fed(n).red

\* no item is taken that is not needed
Lazy(stages, s) ==
  (\A i \in 1..Len(stages) : ~UserStage(stages[i])) =>
    \A k \in 1..Len(got) :
      LET c == got[k][2] IN
      /\ c < Len(s) => Given(stages, s, c) >= k
      /\ \A n \in 0..(c-1) : Given(stages, s, n) < k
=============================================================================
