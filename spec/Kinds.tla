------------------------------- MODULE Kinds --------------------------------
(* Message types that a user defines, for small buffers. harness/src/types.rs*)
(* implements them.                                                          *)
EXTENDS Integers, Sequences

\* mini: marker 1 2, then a length byte of 1..3 that counts itself and what follows
MiniMarker == <<1, 2>>
MiniLen(b, p) ==
  IF p + 3 <= Len(b) /\ b[p + 3] \in 1..3 /\ p + 2 + b[p + 3] <= Len(b) THEN 2 + b[p + 3] ELSE 0

\* tick: marker 1; if the next byte is 2 or 3 it is the length, other messages are only the marker
TickMarker == <<1>>
TickLen(b, p) ==
  IF p + 2 <= Len(b) /\ b[p + 2] \in {2, 3} THEN IF p + b[p + 2] <= Len(b) THEN b[p + 2] ELSE 0
  ELSE 1

\* a marker, a byte that counts what follows, and that
CountedLen(b, p, m, most) ==
  IF p + m + 1 <= Len(b) /\ b[p + m + 1] <= most /\ p + m + 1 + b[p + m + 1] <= Len(b) THEN m + 1 + b[p + m + 1] ELSE 0
\* trio: a marker whose beginning repeats
TrioMarker == <<1, 1, 2>>
TrioLen(b, p) == CountedLen(b, p, 3, 2)
\* word: a long marker, parts of which repeat (abacabad)
WordMarker == <<97, 98, 97, 99, 97, 98, 97, 100>>
WordLen(b, p) == CountedLen(b, p, 8, 200)

\* without a marker: a byte that counts what follows, and that
FieldLen(b, p) == CountedLen(b, p, 0, 2)
\* without a marker: always two bytes
PairLen(b, p) == IF p + 2 <= Len(b) THEN 2 ELSE 0
=============================================================================
