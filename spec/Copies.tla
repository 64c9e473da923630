------------------------------- MODULE Copies -------------------------------
(* Buffers with more messages than a model can hold: a block that is         *)
(* repeated, and that needs no byte from behind it, gives the same messages  *)
(* in every copy. So what holds for a buffer with two copies holds for one   *)
(* with any number of copies, with the second one repeated. This is checked  *)
(* here, and used to decide runs with many thousands of messages.            *)
EXTENDS Stretch

RECURSIVE Times_(_, _)
Times_(x, k) == IF k = 0 THEN <<>> ELSE x \o Times_(x, k - 1)
\* x is repeated: once in front, k times more behind
Repeated(pre, x, k, post) == pre \o Times_(x, k + 1) \o post

\* position q of l is a border: no message or marker before it needs anything from behind it
Border(l, q) ==
  /\ \A p \in 0..(q - 1) : MarkerAt(l, p) => p + MLen <= q /\ LenAt(l, p) = LenAt(SubSeq(l, 1, q), p)
Borders(pre, x, k, post) == \A j \in 0..(k + 1) : Border(Repeated(pre, x, k, post), Len(pre) + j * Len(x))

\* The short buffer has two copies. Positions up to the end of the first copy are the same, those
\* of the second copy are there k times, those behind it move. n is the length of the block, e the
\* end of the first copy.
ShiftBy(ms, d) == [i \in 1..Len(ms) |-> <<ms[i][1] + d>> \o Tail(ms[i])]
Upto(ms, q) == SelectSeq(ms, LAMBDA m : m[1] < q)
Behind_(ms, q) == SelectSeq(ms, LAMBDA m : m[1] >= q)
RECURSIVE CopiesOf(_, _, _)
CopiesOf(ms, n, k) == IF k = 0 THEN <<>> ELSE CopiesOf(ms, n, k - 1) \o ShiftBy(ms, (k - 1) * n)
\* ascending messages
Spread(ms, e, n, k) == Upto(ms, e) \o CopiesOf(Behind_(Upto(ms, e + n), e), n, k) \o ShiftBy(Behind_(ms, e + n), (k - 1) * n)
\* descending messages
Backwards(ms) == [i \in 1..Len(ms) |-> ms[Len(ms) + 1 - i]]
SpreadBack(ms, e, n, k) == Backwards(Spread(Backwards(ms), e, n, k))
\* a position of the long buffer, in the short one; d is how often the block has to be taken away
Fold(p, e, n, k) == IF p <= e + n THEN p ELSE IF p >= e + k * n THEN p - (k - 1) * n ELSE e + ((p - e) % n)
=============================================================================
