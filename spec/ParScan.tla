------------------------------ MODULE ParScan -------------------------------
(* Processing the slices of a file in parallel: any worker takes any slice   *)
(* at any time, and results of neighbours are combined in any order.         *)
EXTENDS Ripdlt

\* the result over messages, and how results are combined
EcuCounts(dd) == [e \in Ecus(dd) |-> Len(Of(dd, e))]
\* bags of <<ecu, span>>
Bag2(f) == LET K == UNION {{<<e, k>> : k \in DOMAIN f[e]} : e \in DOMAIN f} IN [x \in K |-> f[x[1]][x[2]]]

Sub(dd, hit) ==
  [ count |-> Len(dd), hello |-> Hellos(dd), grep |-> hit, long |-> Lifecycles(dd),
    spans |-> SecsHistogram(dd), ecus |-> EcuCounts(dd), ecuSpans |-> Bag2([e \in Ecus(dd) |-> SecsOfEcus(dd)[e][1]]) ]
Join2(x, y) ==
  [ count |-> x.count + y.count, hello |-> x.hello + y.hello, grep |-> x.grep + y.grep, long |-> x.long + y.long,
    spans |-> Plus2(x.spans, y.spans), ecus |-> Plus2(x.ecus, y.ecus), ecuSpans |-> Plus2(x.ecuSpans, y.ecuSpans) ]
Nothing == Sub(<<>>, 0)

VARIABLES todo,      \* slices that nobody has taken
          busy,      \* slices that workers are processing
          done       \* results <<first slice, last slice, result>>
parVars == <<todo, busy, done>>
ParInit(n) == todo = 1..n /\ busy = {} /\ done = {}

TakeSlice(workers) == /\ Cardinality(busy) < workers
                      /\ \E i \in todo : todo' = todo \ {i} /\ busy' = busy \cup {i} /\ UNCHANGED done
\* res[i] is the result of slice i
FinishSlice(res) == \E i \in busy : busy' = busy \ {i} /\ done' = done \cup {<<i, i, res[i]>>} /\ UNCHANGED todo
Combine == \E x, y \in done : /\ x[2] + 1 = y[1]
                              /\ done' = (done \ {x, y}) \cup {<<x[1], y[2], Join2(x[3], y[3])>>}
                              /\ UNCHANGED <<todo, busy>>
ParNext(workers, res) == TakeSlice(workers) \/ FinishSlice(res) \/ Combine
ParDone(n) == \E x \in done : x[1] = 1 /\ x[2] = n
ParResult == (CHOOSE x \in done : x[1] = 1)[3]
=============================================================================
