------------------------------ MODULE TracePar ------------------------------
(* Recorded reports of the parallel variants over the file b, done with m    *)
(* slices (m = 0: with any number of slices). They have to be the sums of the results of the slices of some     *)
(* partitioning of the messages into m slices. h is the kind of report:      *)
(*   "count" "hello" "grep" "raw" : v is the number                          *)
(*   "long": v is the sum, w the numbers of the slices in any order          *)
(*   "spans": w is a sequence of <<span, count>>                             *)
(*   "ecus": w is a sequence of <<ecu, <<span, count>>..., messages>>        *)
EXTENDS ParScan, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, d, k, i, sum, left, ok
vars == <<t, d, k, i, sum, left, ok, todo, busy, done, acc, next, pos, out, ended>>
T == Traces[t]
b == T.b
Init == /\ t \in 1..Len(Traces) /\ d = <<>> /\ k = 0 /\ i = 1 /\ sum = NoBag /\ ok = FALSE
        /\ left = IF Traces[t].h = "long" THEN Bag(Traces[t].w) ELSE NoBag
        /\ ParInit(0) /\ RipInit /\ ScanInit(0)
keep == UNCHANGED <<t, parVars, ripVars>>
Read == ScanNext(b) /\ d' = (IF ended' THEN Digests(b, out) ELSE d) /\ keep /\ UNCHANGED <<k, i, sum, left, ok>>

\* numbers that do not depend on the slices
InMessages == {p \in 0..(Len(b) - Len(HelloWorld)) : Occurs(HelloWorld, b, p) /\ \E j \in 1..Len(out) : out[j][1] <= p /\ p + Len(HelloWorld) <= out[j][1] + out[j][2]}
Number == CASE T.h = "count" -> T.v = Len(d)
            [] T.h = "hello" -> T.v = Hellos(d)
            [] T.h = "grep"  -> Unnested(b) => T.v = Len(HelloHits(b, out))
            \* matches that do not lie within a message may cross slices
            [] T.h = "raw"   -> Cardinality(InMessages) <= T.v /\ T.v <= RawHellos(b)
            [] OTHER -> FALSE
Check == ended /\ ~ok /\ T.h \in {"count", "hello", "grep", "raw"} /\ Number /\ ok' = TRUE /\ keep /\ UNCHANGED <<d, k, i, sum, left, scanVars>>

\* messages k + 1 .. j are slice i
More == IF T.m = 0 THEN k < Len(d) \/ i = 1 ELSE i <= T.m
SliceEnds == IF T.m = 0 THEN (k + 1)..Len(d) ELSE IF i = T.m THEN {Len(d)} ELSE k..Len(d)
All == IF T.m = 0 THEN k = Len(d) ELSE i = T.m + 1
Part(j) == SubSeq(d, k + 1, j)
Below(bag, goal) == \A x \in DOMAIN bag : x \in DOMAIN goal /\ bag[x] <= goal[x]
BagOfPairs(w) == [x \in {w[n][1] : n \in 1..Len(w)} |-> LET n == CHOOSE n \in 1..Len(w) : w[n][1] = x IN w[n][2]]
GoalBag == IF T.h = "spans" THEN BagOfPairs(T.w) ELSE Bag2([e \in {T.w[n][1] : n \in 1..Len(T.w)} |-> BagOfPairs((T.w[CHOOSE n \in 1..Len(T.w) : T.w[n][1] = e])[2])])
SliceBag(j) == IF T.h = "spans" THEN SecsHistogram(Part(j)) ELSE Bag2([e \in Ecus(Part(j)) |-> SecsOfEcus(Part(j))[e][1]])
Slice == /\ ended /\ ~ok /\ T.h \in {"spans", "ecus"} /\ More
         /\ \E j \in SliceEnds :
              /\ sum' = Plus2(sum, SliceBag(j)) /\ Below(sum', GoalBag) /\ k' = j
         /\ i' = i + 1 /\ keep /\ UNCHANGED <<d, left, ok, scanVars>>
\* a result of a slice that is not yet accounted for
LongSlice == /\ ended /\ ~ok /\ T.h = "long" /\ More
             /\ \E j \in SliceEnds :
                  LET v == Lifecycles(Part(j)) IN
                  /\ v \in DOMAIN left /\ left[v] > 0
                  /\ left' = [left EXCEPT ![v] = @ - 1] /\ k' = j
             /\ i' = i + 1 /\ keep /\ UNCHANGED <<d, sum, ok, scanVars>>
EcuMessages == T.h = "ecus" => /\ {T.w[n][1] : n \in 1..Len(T.w)} = Ecus(d) /\ Len(T.w) = Cardinality(Ecus(d))
                               /\ \A n \in 1..Len(T.w) : T.w[n][3] = Len(Of(d, T.w[n][1]))
Whole == /\ ended /\ ~ok /\ T.h \in {"spans", "ecus", "long"} /\ All
         /\ IF T.h = "long" THEN \A x \in DOMAIN left : left[x] = 0 ELSE sum = GoalBag
         /\ EcuMessages
         /\ ok' = TRUE /\ keep /\ UNCHANGED <<d, k, i, sum, left, scanVars>>
Next == Read \/ Check \/ Slice \/ LongSlice \/ Whole
Spec == Init /\ [][Next]_vars
Accepted == ok => PrintT("@@accept " \o ToString(t))
=============================================================================
