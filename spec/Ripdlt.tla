------------------------------- MODULE Ripdlt -------------------------------
(* The reports of ripdlt over the messages of a file. Numbers of 32 bits are *)
(* pairs <<high, low>>.                                                      *)
EXTENDS Contain, Matching, DltFormat, SequencesExt, TLC

-----------------------------------------------------------------------------
(* Numbers                                                                   *)
GE(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] >= b[2])
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + 65536 - b[2]>>
Div10000(a) == (a[1] \div 10000) * 65536 + ((a[1] % 10000) * 65536 + a[2]) \div 10000
MinTime == <<274, 43136>>            \* 1800 s in units of 0.1 ms

(* Bags are functions from keys to counts                                    *)
NoBag == <<>>
Add(bag, k) == IF k \in DOMAIN bag THEN [bag EXCEPT ![k] = @ + 1] ELSE bag @@ (k :> 1)
RECURSIVE BagOf(_, _)
BagOf(s, i) == IF i = 0 THEN NoBag ELSE Add(BagOf(s, i - 1), s[i])
Plus2(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> (IF k \in DOMAIN f THEN f[k] ELSE 0) + (IF k \in DOMAIN g THEN g[k] ELSE 0)]
Pairs(bag) == {<<k, bag[k]>> : k \in DOMAIN bag}

-----------------------------------------------------------------------------
(* What the reports need of a message. Absent is <<>>, present is <<value>>. *)
Occurs(text, b, p) == p + Len(text) <= Len(b) /\ \A i \in 1..Len(text) : b[p + i] = text[i]
HasText(text, s) == \E p \in 0..(Len(s) - Len(text)) : Occurs(text, s, p)

Digest(b, p, n) ==
  LET f == DltFields(b, p, n) IN
  [ secs  |-> f.secs, ecu |-> f.ecu, len |-> n,
    id    |-> f.dlt.ecu_id,
    time  |-> f.dlt.timestamp,
    type  |-> IF f.dlt.ext = <<>> THEN <<>> ELSE << <<f.dlt.ext[1].verbose, f.dlt.ext[1].type>> >>,
    \* a message without room for a payload counts as one without payload bytes
    pay   |-> IF f.dlt.payload = <<>> THEN 0 ELSE Len(f.dlt.payload[1]),
    hello |-> f.dlt.payload # <<>> /\ HasText(HelloWorld, f.dlt.payload[1]) ]
Digests(b, roots) == [i \in 1..Len(roots) |-> Digest(b, roots[i][1], roots[i][2])]

-----------------------------------------------------------------------------
(* Maximal periods, merging, and the reports, on whole sequences.            *)
\* R relates neighbours; the runs <<first, last>> in order
RunsBy(R(_, _), s) ==
  LET first == {i \in 1..Len(s) : i = 1 \/ ~R(s[i - 1], s[i])}
      lastOf(i) == CHOOSE j \in i..Len(s) : /\ j = Len(s) \/ j + 1 \in first
                                            /\ \A k \in (i + 1)..j : k \notin first
      order == SetToSortSeq(first, LAMBDA i, j : i < j)
  IN  [n \in 1..Len(order) |-> <<s[order[n]], s[lastOf(order[n])]>>]

LaterTime(x, y) == GE(y.time[1], x.time[1])
LaterTimeOfId(x, y) == x.id = y.id /\ LaterTime(x, y)
LaterSecs(x, y) == GE(y.secs, x.secs)
TimeSpan(r) == Minus(r[2].time[1], r[1].time[1])
SecsSpan(r) == Minus(r[2].secs, r[1].secs)

Timed(d) == SelectSeq(d, LAMBDA m : m.time # <<>>)
Of(d, ecu) == SelectSeq(d, LAMBDA m : m.ecu = ecu)
Ecus(d) == {d[i].ecu : i \in 1..Len(d)}
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Bag(s) == BagOf(s, Len(s))

\* intervals <<lo, hi>> of numbers: those that overlap are united, until none do
Overlap(x, y) == GE(x[2], y[1]) /\ GE(y[2], x[1])
Unite(x, y) == <<IF GE(x[1], y[1]) THEN y[1] ELSE x[1], IF GE(x[2], y[2]) THEN x[2] ELSE y[2]>>
RECURSIVE United(_, _)
United(S, x) == IF \E y \in S : Overlap(x, y)
                THEN LET y == CHOOSE y \in S : Overlap(x, y) IN United(S \ {y}, Unite(x, y))
                ELSE S \cup {x}
RECURSIVE UniteAll(_, _)
UniteAll(s, i) == IF i = 0 THEN {} ELSE United(UniteAll(s, i - 1), s[i])
\* the same, without an order: the unions of the connected sets of intervals
RECURSIVE Connected(_, _)
Connected(s, C) == LET D == C \cup {i \in 1..Len(s) : \E j \in C : Overlap(s[i], s[j])} IN IF D = C THEN C ELSE Connected(s, D)
Hull(s, C) == <<s[CHOOSE i \in C : \A j \in C : GE(s[j][1], s[i][1])][1], s[CHOOSE i \in C : \A j \in C : GE(s[i][2], s[j][2])][2]>>
Unions(s) == {Hull(s, Connected(s, {i})) : i \in 1..Len(s)}

BagOfSet(S, F(_)) == Bag(Map(F, SetToSeq(S)))

Lifecycles(d) == Len(SelectSeq(RunsBy(LaterTime, Timed(d)), LAMBDA r : GE(TimeSpan(r), MinTime)))
LifeHistogram(d) == Bag(Map(LAMBDA r : Div10000(TimeSpan(r)), RunsBy(LaterTimeOfId, Timed(d))))
LifeOfEcus(d) == [e \in Ecus(Timed(d)) |->
   LET s == Of(Timed(d), e) IN <<Bag(Map(LAMBDA r : Div10000(TimeSpan(r)), RunsBy(LaterTime, s))), Len(s)>>]
SecsHistogram(d) == Bag(Map(SecsSpan, RunsBy(LaterSecs, d)))
Periods(s) == Map(LAMBDA r : <<r[1].secs, r[2].secs>>, RunsBy(LaterSecs, s))
SecsOfEcus(d) == [e \in Ecus(d) |->
   LET s == Of(d, e) IN <<BagOfSet(Unions(Periods(s)), LAMBDA x : Minus(x[2], x[1])), Len(s)>>]
Types(d) == LET s == SelectSeq(d, LAMBDA m : m.type # <<>>) IN Bag(Map(LAMBDA m : m.type[1], s))
PaySizes(d) == Bag(Map(LAMBDA m : m.pay, d))
Sizes(d) == Bag(Map(LAMBDA m : m.len, d))
Hellos(d) == Len(SelectSeq(d, LAMBDA m : m.hello))
RawHellos(b) == Cardinality({p \in 0..(Len(b) - Len(HelloWorld)) : Occurs(HelloWorld, b, p)})
HelloHits(b, roots) == GrepOf(b, roots, HSpaceWorld, 0, 1)

-----------------------------------------------------------------------------
(* The same, one message after the other: open periods, and bags.            *)
VARIABLES acc, next
ripVars == <<acc, next>>
NoRun == <<>>
NewEcu == [life |-> NoRun, lifes |-> NoBag, timed |-> 0, secs |-> NoRun, periods |-> {}, n |-> 0]
RipInit == /\ next = 1
           /\ acc = [ n |-> 0, hello |-> 0, types |-> NoBag, pays |-> NoBag, sizes |-> NoBag,
                      long |-> 0, life |-> NoRun, byId |-> NoRun, byIds |-> NoBag, secs |-> NoRun, spans |-> NoBag,
                      ecus |-> NoBag ]

IsLong(r) == IF r # NoRun /\ GE(TimeSpan(r), MinTime) THEN 1 ELSE 0
AddLife(bag, r) == IF r # NoRun THEN Add(bag, Div10000(TimeSpan(r))) ELSE bag
AddSpan(bag, r) == IF r # NoRun THEN Add(bag, SecsSpan(r)) ELSE bag
AddPeriod(S, r) == IF r # NoRun THEN United(S, <<r[1].secs, r[2].secs>>) ELSE S
Goes(R(_, _), r, m) == IF r = NoRun THEN FALSE ELSE R(r[2], m)
Open(r, goes, m) == IF goes THEN <<r[1], m>> ELSE <<m, m>>

\* the part of an ECU
EcuStep(e, m) ==
  LET g == m.time # <<>> /\ Goes(LaterTime, e.life, m)
      h == Goes(LaterSecs, e.secs, m)
  IN  [ life  |-> IF m.time # <<>> THEN Open(e.life, g, m) ELSE e.life,
        lifes |-> IF m.time # <<>> /\ ~g THEN AddLife(e.lifes, e.life) ELSE e.lifes,
        timed |-> e.timed + IF m.time # <<>> THEN 1 ELSE 0,
        secs  |-> Open(e.secs, h, m),
        periods |-> IF ~h THEN AddPeriod(e.periods, e.secs) ELSE e.periods,
        n |-> e.n + 1 ]
EcuEnd(e) == [e EXCEPT !.lifes = AddLife(@, e.life), !.life = NoRun, !.periods = AddPeriod(@, e.secs), !.secs = NoRun]

Take1(d) ==
  /\ next <= Len(d)
  /\ LET m == d[next]
         t == m.time # <<>>
         g == t /\ Goes(LaterTime, acc.life, m)
         i == t /\ Goes(LaterTimeOfId, acc.byId, m)
         h == Goes(LaterSecs, acc.secs, m)
         e == IF m.ecu \in DOMAIN acc.ecus THEN acc.ecus[m.ecu] ELSE NewEcu
     IN  acc' = [ n |-> acc.n + 1, hello |-> acc.hello + B2N(m.hello),
                  types |-> IF m.type # <<>> THEN Add(acc.types, m.type[1]) ELSE acc.types,
                  pays |-> Add(acc.pays, m.pay), sizes |-> Add(acc.sizes, m.len),
                  long |-> acc.long + IF t /\ ~g THEN IsLong(acc.life) ELSE 0,
                  life |-> IF t THEN Open(acc.life, g, m) ELSE acc.life,
                  byIds |-> IF t /\ ~i THEN AddLife(acc.byIds, acc.byId) ELSE acc.byIds,
                  byId |-> IF t THEN Open(acc.byId, i, m) ELSE acc.byId,
                  spans |-> IF ~h THEN AddSpan(acc.spans, acc.secs) ELSE acc.spans,
                  secs |-> Open(acc.secs, h, m),
                  ecus |-> [k \in DOMAIN acc.ecus \cup {m.ecu} |-> IF k = m.ecu THEN EcuStep(e, m) ELSE acc.ecus[k]] ]
  /\ next' = next + 1
CloseAll(d) ==
  /\ next = Len(d) + 1
  /\ acc' = [acc EXCEPT !.long = @ + IsLong(acc.life), !.life = NoRun, !.byIds = AddLife(@, acc.byId), !.byId = NoRun,
                        !.spans = AddSpan(@, acc.secs), !.secs = NoRun, !.ecus = [k \in DOMAIN @ |-> EcuEnd(@[k])]]
  /\ next' = next + 1
RipNext(d) == Take1(d) \/ CloseAll(d)
Reported(d) == next = Len(d) + 2

\* both agree
RipExact(d) == Reported(d) =>
  /\ acc.n = Len(d) /\ acc.hello = Hellos(d) /\ acc.types = Types(d) /\ acc.pays = PaySizes(d) /\ acc.sizes = Sizes(d)
  /\ acc.long = Lifecycles(d) /\ acc.byIds = LifeHistogram(d) /\ acc.spans = SecsHistogram(d)
  /\ LET t == {k \in DOMAIN acc.ecus : acc.ecus[k].timed > 0} IN
       /\ [k \in t |-> <<acc.ecus[k].lifes, acc.ecus[k].timed>>] = LifeOfEcus(d)
       /\ [k \in DOMAIN acc.ecus |-> <<BagOfSet(acc.ecus[k].periods, LAMBDA x : Minus(x[2], x[1])), acc.ecus[k].n>>] = SecsOfEcus(d)
       /\ \A k \in DOMAIN acc.ecus : acc.ecus[k].periods = Unions(Periods(Of(d, k)))

\* every message is in every report that does not need a field it lacks
Total(bag) == LET RECURSIVE Sum(_) 
                  Sum(D) == IF D = {} THEN 0 ELSE LET k == CHOOSE k \in D : TRUE IN bag[k] + Sum(D \ {k})
              IN  Sum(DOMAIN bag)
RipTotal(d) == Reported(d) => Total(acc.pays) = Len(d) /\ Total(acc.sizes) = Len(d)
                                /\ Total([k \in DOMAIN acc.ecus |-> acc.ecus[k].n]) = Len(d)
                                /\ Total([k \in DOMAIN acc.ecus |-> acc.ecus[k].timed]) = Len(Timed(d))

\* all reports, to compare them with those of the tool
AllReports(b, roots) ==
  [ count |-> acc.n, hello |-> acc.hello, raw |-> RawHellos(b), long |-> acc.long,
    types |-> Pairs(acc.types), pays |-> Pairs(acc.pays), sizes |-> Pairs(acc.sizes),
    byIds |-> Pairs(acc.byIds), spans |-> Pairs(acc.spans),
    lifeEcus |-> {<<k, Pairs(acc.ecus[k].lifes), acc.ecus[k].timed>> : k \in {x \in DOMAIN acc.ecus : acc.ecus[x].timed > 0}},
    secsEcus |-> {<<k, Pairs(BagOfSet(acc.ecus[k].periods, LAMBDA x : Minus(x[2], x[1]))), acc.ecus[k].n>> : k \in DOMAIN acc.ecus},
    \* pattern searches are about files in which no marker starts inside a message
    hits |-> IF Unnested(b) THEN <<HelloHits(b, roots)>> ELSE <<>> ]
=============================================================================
