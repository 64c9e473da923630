-------------------------------- MODULE Large -------------------------------
(* The meaning of pipelines and of stages on iterators, for sequences of     *)
(* many thousand values: the same as Denote (Streams) and as the machine of  *)
(* Pull, which MCPush and MCPull check, but without recursion over the       *)
(* sequence. A stream is [q |-> <<<<value, items taken from the source when  *)
(* it is given>>, ..>>, e |-> items taken at the end].                       *)
EXTENDS Pull, SequencesExt

Stream(s) == [q |-> TLCEval([i \in 1..Len(s) |-> <<s[i], i>>]), e |-> Len(s)]
ValuesOf(x) == TLCEval([i \in 1..Len(x.q) |-> x.q[i][1]])

\* runs are what is between two positions at which neighbours are not related
LRuns(r, x) ==
  LET q == x.q
      n == Len(q)
      starts == SelectSeq([i \in 1..n |-> i], LAMBDA i : i = 1 \/ ~Rel(r, q[i - 1][1], q[i][1]))
      all == TLCEval([k \in 1..Len(starts) |-> <<starts[k], IF k < Len(starts) THEN starts[k + 1] - 1 ELSE n>>])
      kept == SelectSeq(all, LAMBDA a : a[1] < a[2] \/ Rel(r, q[a[1]][1], q[a[1]][1]))
  IN  \* a run is known when the first value behind it has come
      TLCEval([k \in 1..Len(kept) |-> <<<<q[kept[k][1]][1], q[kept[k][2]][1]>>, IF kept[k][2] < n THEN q[kept[k][2] + 1][2] ELSE x.e>>])

Pairs(T) == SetToSortSeq(T, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))

\* of values with the same weight the first one stays
LSame(s) ==
  LET o == Pairs({<<W(s[i]), i>> : i \in 1..Len(s)})
      firsts == SelectSeq([i \in 1..Len(o) |-> i], LAMBDA i : i = 1 \/ o[i - 1][1] < o[i][1])
  IN  TLCEval([k \in 1..Len(firsts) |-> s[o[firsts[k]][2]]])

\* the first of the largest values
LParity(s) ==
  LET of(p) == FoldLeft(LAMBDA m, v : IF W(v) % 2 = p /\ (m = <<>> \/ W(m[1]) < W(v)) THEN <<v>> ELSE m, <<>>, s)
  IN  of(0) \o of(1)

\* intervals by start: the next one belongs to those before it, or has a gap to all of them
LUnions(c, s) ==
  LET o == Pairs({<<Lo(s[i]), i>> : i \in 1..Len(s)})
      step(a, y) ==
        LET v == s[y[2]] IN
        IF a.cur # <<>> /\ Lo(v) <= Hi(a.cur[1]) + Gap(c)
        THEN [a EXCEPT !.cur = <<<<Num(Lo(a.cur[1])), Num(Larger(Hi(a.cur[1]), Hi(v)))>>>>]
        ELSE [done |-> a.done \o a.cur, cur |-> <<v>>]
      all == FoldLeft(step, [done |-> <<>>, cur |-> <<>>], o)
  IN  all.done \o all.cur

LMerge(c, k, s) ==
  CASE c = "same" /\ k = "w" -> LSame(s)
    [] c = "same" /\ k = "rev" -> Reverse(LSame(s))
    [] c = "parity" /\ k \in {"w", "mod2"} -> ByKey(k, ToSet(LParity(s)))
    [] c \in {"union", "touch"} /\ k = "iv" /\ (\A i \in 1..Len(s) : Lo(s[i]) <= Hi(s[i])) -> LUnions(c, s)
    [] OTHER -> ByKey(k, MergeAll(c, s, Len(s)))

\* the stream at the end of which a value stops it
Until(g, x) ==
  LET j == SelectInSeq(x.q, LAMBDA u : Stops(g, u[1]))
  IN  IF j = 0 THEN x ELSE [q |-> SubSeq(x.q, 1, j - 1), e |-> x.q[j][2]]
AtEnd(s, e) == TLCEval([i \in 1..Len(s) |-> <<s[i], e>>])

LStage(g, x) ==
  CASE g[1] = "filter"  -> [x EXCEPT !.q = SelectSeq(@, LAMBDA u : Pred(g[2], u[1]))]
    [] g[1] = "map"     -> [x EXCEPT !.q = TLCEval([i \in 1..Len(x.q) |-> <<MapF(g[2], x.q[i][1]), x.q[i][2]>>])]
    [] g[1] = "groupby" -> [x EXCEPT !.q = LRuns(g[2], x)]
    [] g[1] = "merge"   -> [x EXCEPT !.q = AtEnd(LMerge(g[2], g[3], ValuesOf(x)), x.e)]
    [] g[1] = "pass"    -> Until(g, x)
    [] g[1] = "hold"    -> LET u == Until(g, x) IN [u EXCEPT !.q = AtEnd(ValuesOf(u), u.e)]
    [] g[1] = "gaps"    -> LET odd == SelectSeq(ValuesOf(x), LAMBDA v : W(v) % 2 = 1)
                           IN  [x EXCEPT !.q = SelectSeq(@, LAMBDA u : W(u[1]) % 2 = 0) \o AtEnd(odd, x.e)]

RECURSIVE LCompose(_, _, _)
LCompose(stages, i, x) == IF i > Len(stages) THEN x ELSE LCompose(stages, i + 1, LStage(stages[i], x))

RECURSIVE LDenote(_, _)
\* the values of each key, found by sorting
LSplit(e, s) ==
  LET n == Len(s)
      o == SetToSortSeq({<<Key(e[2], s[i])[1], Key(e[2], s[i])[2], i>> : i \in 1..n},
                        LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))))
      starts == SelectSeq([i \in 1..n |-> i], LAMBDA i : i = 1 \/ o[i - 1][1] # o[i][1] \/ o[i - 1][2] # o[i][2])
      end(k) == IF k < Len(starts) THEN starts[k + 1] - 1 ELSE n
  IN  TLCEval([k \in 1..Len(starts) |->
        <<<<o[starts[k]][1], o[starts[k]][2]>>, LDenote(e[3], TLCEval([j \in 1..(end(k) - starts[k] + 1) |-> s[o[starts[k] + j - 1][3]]]))>>])
LEnd(e, s) ==
  CASE e[1] = "count"   -> Len(s)
    [] e[1] = "sum"     -> FoldLeft(LAMBDA a, v : a + W(v), 0, s)
    [] e[1] = "collect" -> s
    [] e[1] = "fold"    -> FoldLeft(LAMBDA a, v : FoldStep(a, v), 7, s)
    [] e[1] = "fork"    -> <<LDenote(e[2], s), LDenote(e[3], s)>>
    [] e[1] = "split"   -> LSplit(e, s)
LDenote(p, s) == LEnd(p.end, ValuesOf(LCompose(p.stages, 1, Stream(s))))
=============================================================================
