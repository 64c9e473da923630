------------------------------- MODULE Regex --------------------------------
(* Regular expressions over bytes, with the meaning of a backtracking        *)
(* search: the first match is the leftmost one, and of those the one that    *)
(* comes first by the preferences of the operators.                          *)
(*                                                                           *)
(*   <<"set", S>>     one byte of the set S                                  *)
(*   <<"of", l>>  <<"not", l>>  one byte that is, or is not, in the list l   *)
(*   <<"any">>        one UTF-8 character except for the line feed           *)
(*   <<"cat", q, r>>  <<"alt", q, r>>  <<"opt", r>>  <<"eps">>               *)
(*   <<"star", r>>    as many as possible   <<"lazy", r>> as few as possible *)
(*   <<"grp", r>>     the group of which the range is reported               *)
(*                                                                           *)
(* Matches(b, r, i, hi, g): all ways in which r matches b from position i    *)
(* without using bytes at or behind hi, by preference, each <<end, group>>;  *)
(* the group is <<>> or <<start, end>>.                                      *)
EXTENDS Integers, Sequences

At(b, i, hi) == IF i < hi THEN b[i + 1] ELSE -1
Cont(b, i, hi) == At(b, i, hi) \in 128..191

\* length of the UTF-8 character at i, or 0
CharLen(b, i, hi) ==
  LET x == At(b, i, hi)
      y == At(b, i + 1, hi)
  IN  CASE x \in 0..127   -> 1
        [] x \in 194..223 -> IF y \in 128..191 THEN 2 ELSE 0
        [] x = 224        -> IF y \in 160..191 /\ Cont(b, i + 2, hi) THEN 3 ELSE 0
        [] x = 237        -> IF y \in 128..159 /\ Cont(b, i + 2, hi) THEN 3 ELSE 0
        [] x \in 225..239 -> IF y \in 128..191 /\ Cont(b, i + 2, hi) THEN 3 ELSE 0
        [] x = 240        -> IF y \in 144..191 /\ Cont(b, i + 2, hi) /\ Cont(b, i + 3, hi) THEN 4 ELSE 0
        [] x \in 241..243 -> IF y \in 128..191 /\ Cont(b, i + 2, hi) /\ Cont(b, i + 3, hi) THEN 4 ELSE 0
        [] x = 244        -> IF y \in 128..143 /\ Cont(b, i + 2, hi) /\ Cont(b, i + 3, hi) THEN 4 ELSE 0
        [] OTHER          -> 0

RECURSIVE Matches(_, _, _, _, _), Each(_, _, _, _, _), Rest(_, _, _, _, _)
Matches(b, r, i, hi, g) ==
  CASE r[1] = "set"  -> IF At(b, i, hi) \in r[2] THEN <<<<i + 1, g>>>> ELSE <<>>
    [] r[1] = "of"   -> IF \E k \in 1..Len(r[2]) : r[2][k] = At(b, i, hi) THEN <<<<i + 1, g>>>> ELSE <<>>
    [] r[1] = "not"  -> IF i < hi /\ \A k \in 1..Len(r[2]) : r[2][k] # At(b, i, hi) THEN <<<<i + 1, g>>>> ELSE <<>>
    [] r[1] = "any"  -> LET n == CharLen(b, i, hi) IN
                        IF n > 0 /\ At(b, i, hi) # 10 THEN <<<<i + n, g>>>> ELSE <<>>
    [] r[1] = "eps"  -> <<<<i, g>>>>
    [] r[1] = "cat"  -> Each(b, r[3], Matches(b, r[2], i, hi, g), hi, 1)
    [] r[1] = "alt"  -> Matches(b, r[2], i, hi, g) \o Matches(b, r[3], i, hi, g)
    [] r[1] = "opt"  -> Matches(b, r[2], i, hi, g) \o <<<<i, g>>>>
    [] r[1] = "star" -> Rest(b, r, Matches(b, r[2], i, hi, g), hi, 1) \o <<<<i, g>>>>
    [] r[1] = "lazy" -> <<<<i, g>>>> \o Rest(b, r, Matches(b, r[2], i, hi, g), hi, 1)
    [] r[1] = "grp"  -> LET m == Matches(b, r[2], i, hi, g) IN
                        [k \in 1..Len(m) |-> <<m[k][1], <<i, m[k][1]>>>>]
\* r behind each of the matches ms
Each(b, r, ms, hi, k) ==
  IF k > Len(ms) THEN <<>>
  ELSE Matches(b, r, ms[k][1], hi, ms[k][2]) \o Each(b, r, ms, hi, k + 1)
\* the same, for a repetition; its body is not empty
Rest(b, r, ms, hi, k) == Each(b, r, ms, hi, k)

NoMatch == <<>>

-----------------------------------------------------------------------------
(* The same, without the matches that end where a preferred one ends: what   *)
(* follows is the same for both, so they cannot become a part of the first   *)
(* match. Every list then has at most one entry for each position.           *)
Put(l, x) == IF \E k \in 1..Len(l) : l[k][1] = x[1] THEN l ELSE Append(l, x)
RECURSIVE PutAll(_, _, _)
PutAll(l, m, k) == IF k > Len(m) THEN l ELSE PutAll(Put(l, m[k]), m, k + 1)

RECURSIVE Ends(_, _, _, _, _), EachEnd(_, _, _, _, _, _), Loop(_, _, _, _, _, _), Loops(_, _, _, _, _, _)
Ends(b, r, i, hi, g) ==
  CASE r[1] = "cat"  -> EachEnd(b, r[3], Ends(b, r[2], i, hi, g), hi, 1, <<>>)
    [] r[1] = "alt"  -> PutAll(Ends(b, r[2], i, hi, g), Ends(b, r[3], i, hi, g), 1)
    [] r[1] = "opt"  -> Put(Ends(b, r[2], i, hi, g), <<i, g>>)
    [] r[1] \in {"star", "lazy"} -> Loop(b, r, i, hi, g, [seen |-> {}, l |-> <<>>]).l
    [] r[1] = "grp"  -> LET m == Ends(b, r[2], i, hi, g) IN [k \in 1..Len(m) |-> <<m[k][1], <<i, m[k][1]>>>>]
    [] OTHER -> Matches(b, r, i, hi, g)
EachEnd(b, r, ms, hi, k, l) ==
  IF k > Len(ms) THEN l ELSE EachEnd(b, r, ms, hi, k + 1, PutAll(l, Ends(b, r, ms[k][1], hi, ms[k][2]), 1))
\* repetitions: no position is tried twice
Loop(b, r, i, hi, g, a) ==
  IF i \in a.seen THEN a
  ELSE LET here == <<i, g>>
           a1 == [seen |-> a.seen \cup {i}, l |-> IF r[1] = "lazy" THEN Append(a.l, here) ELSE a.l]
           a2 == Loops(b, r, Ends(b, r[2], i, hi, g), hi, 1, a1)
       IN  IF r[1] = "lazy" THEN a2 ELSE [a2 EXCEPT !.l = Append(@, here)]
Loops(b, r, ms, hi, k, a) == IF k > Len(ms) THEN a ELSE Loops(b, r, ms, hi, k + 1, Loop(b, r, ms[k][1], hi, ms[k][2], a))

\* the first match that starts in lo .. last: <<start, end, group>>
Find(b, r, lo, last, hi) ==
  IF \E s \in lo..last : Ends(b, r, s, hi, <<>>) # <<>>
  THEN LET s == CHOOSE s \in lo..last : /\ Ends(b, r, s, hi, <<>>) # <<>>
                                        /\ \A q \in lo..(s - 1) : Ends(b, r, q, hi, <<>>) = <<>>
           m == Ends(b, r, s, hi, <<>>)[1]
       IN  <<s, m[1], m[2]>>
  ELSE NoMatch
=============================================================================
