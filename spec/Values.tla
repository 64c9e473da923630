------------------------------- MODULE Values -------------------------------
(* The values that flow through pipelines, and the functions that the        *)
(* stages of a pipeline apply. A number n is <<n>>, a pair <<a, b>> consists *)
(* of two values. harness/src/val.rs has the same functions.                 *)
EXTENDS Integers, Sequences

Num(n) == <<n>>
IsNum(v) == Len(v) = 1

RECURSIVE W(_)
W(v) == IF IsNum(v) THEN v[1] ELSE W(v[1]) + 2 * W(v[2])      \* the weight of a value

Abs(n) == IF n < 0 THEN -n ELSE n
Larger(a, b) == IF a >= b THEN a ELSE b
Smaller(a, b) == IF a <= b THEN a ELSE b

Pred(f, v) ==
  CASE f = "odd" -> W(v) % 2 = 1
    [] f = "ne0" -> W(v) # 0
    [] f = "lt3" -> W(v) < 3

MapF(f, v) ==
  CASE f = "inc"  -> Num(W(v) + 1)
    [] f = "mod2" -> Num(W(v) % 2)
    [] f = "w"    -> Num(W(v))
    [] f = "dup"  -> <<v, v>>
    [] f = "to3"  -> <<Num(W(v)), Num(W(v) + 1)>>
    [] f = "fst"  -> IF IsNum(v) THEN v ELSE v[1]
    [] f = "snd"  -> IF IsNum(v) THEN v ELSE v[2]

Rel(f, a, b) ==
  CASE f = "ge"     -> W(b) >= W(a)
    [] f = "gt"     -> W(b) > W(a)
    [] f = "eq"     -> W(b) = W(a)
    [] f = "succ"   -> W(b) = W(a) + 1
    [] f = "near"   -> Abs(W(b) - W(a)) <= 1
    [] f = "sumodd" -> (W(a) + W(b)) % 2 = 1
    [] f = "pos"    -> W(a) > 0
    [] f = "never"  -> FALSE
    [] f = "always" -> TRUE

\* a value as an interval
Lo(v) == IF IsNum(v) THEN v[1] ELSE W(v[1])
Hi(v) == IF IsNum(v) THEN v[1] ELSE W(v[2])

\* the criteria by which two values can be merged, and what they give
Gap(f) == IF f = "touch" THEN 1 ELSE 0

CanMerge(f, a, b) ==
  CASE f = "same"   -> W(a) = W(b)
    [] f = "parity" -> W(a) % 2 = W(b) % 2
    [] f = "near"   -> Abs(W(a) - W(b)) <= 1
    [] OTHER        -> Larger(Lo(a), Lo(b)) <= Smaller(Hi(a), Hi(b)) + Gap(f)

Merged(f, a, b) ==
  CASE f = "same"   -> a
    [] f = "parity" -> IF W(a) >= W(b) THEN a ELSE b
    [] f = "near"   -> IF W(a) >= W(b) THEN a ELSE b
    [] OTHER        -> <<Num(Smaller(Lo(a), Lo(b))), Num(Larger(Hi(a), Hi(b)))>>

\* keys are pairs of numbers, ordered lexicographically
Key(f, v) ==
  CASE f = "w"    -> <<W(v), 0>>
    [] f = "iv"   -> <<Lo(v), Hi(v)>>
    [] f = "mod2" -> <<W(v) % 2, 0>>
    [] f = "rev"  -> <<-W(v), 0>>

KeyLess(k, l) == k[1] < l[1] \/ (k[1] = l[1] /\ k[2] < l[2])

RECURSIVE SortedKeys(_)
SortedKeys(K) ==
  IF K = {} THEN <<>>
  ELSE LET k == CHOOSE k \in K : \A l \in K : ~KeyLess(l, k)
       IN  <<k>> \o SortedKeys(K \ {k})
=============================================================================
