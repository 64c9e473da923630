------------------------------ MODULE Stretch -------------------------------
(* Buffers that are longer than a model can hold: zeros that lie between      *)
(* messages carry no information, so what holds for a buffer holds for it    *)
(* with a longer run of zeros, with positions moved. This is checked here,   *)
(* and used to decide runs on buffers of several GiB.                        *)
EXTENDS Contain, RevSearch, Matching

Stretched(b, g, k) == SubSeq(b, 1, g) \o [i \in 1..k |-> 0] \o SubSeq(b, g + 1, Len(b))
Up(p, g, k) == IF p <= g THEN p ELSE p + k
\* positions in the run, and those behind it
Down(p, g, k) == IF p <= g THEN p ELSE IF p <= g + k THEN g ELSE p - k

\* a zero is at g; no marker is cut, no message before it needs anything from behind
Quiet(b, g, k) ==
  /\ g < Len(b) /\ b[g + 1] = 0
  /\ \A i \in 1..MLen : Marker[i] # 0
  /\ \A p \in 0..(g - 1) : MarkerAt(b, p) => LET l == LenAt(b, p) IN l = LenAt(Stretched(b, g, k), p) /\ p + l <= g

Moved(ms, g, k) == [i \in 1..Len(ms) |-> <<Up(ms[i][1], g, k), ms[i][2]>>]
MovedRange(r, g, k) == IF r = <<>> THEN r ELSE <<Up(r[1], g, k), r[2]>>

RECURSIVE RevSeq(_, _)
RevSeq(b, f) ==
  LET q == LastMarker(b, f) IN
  IF q = NoPos THEN <<>> ELSE (IF Readable(b, q) THEN <<<<q, LenAt(b, q)>>>> ELSE <<>>) \o RevSeq(b, q)
=============================================================================
