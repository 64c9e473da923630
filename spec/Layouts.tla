------------------------------ MODULE Layouts -------------------------------
(* DLT buffers that are put together from pieces: complete messages, damaged *)
(* ones, markers that are cut off, and messages that contain others.         *)
EXTENDS DltFormat, FiniteSets

Ids(a, b, c, d) == <<a, b, c, d>>
Store(secs, ecu) == StorageHeader(DltMarker, <<0, secs>>, <<0, 7>>, ecu)
Ecu1 == <<69, 67, 85, 49>>
Ecu2 == <<69, 67, 85, 50>>

MinMsg == Store(5, Ecu1) \o StandardHeader(32, 9, 4)
FullMsg == Store(6, Ecu2) \o StandardHeader(61, 255, 29) \o <<69, 67, 85, 57>> \o <<0, 0, 0, 3>> \o <<0, 2, 191, 32>>
             \o ExtendedHeader(65, 1, <<65, 80, 73, 68>>, <<67, 84, 73, 68>>) \o <<72, 105, 33>>

Piece == [
  min     |-> MinMsg,
  full    |-> FullMsg,
  short   |-> Store(7, Ecu1) \o StandardHeader(32, 1, 3),
  zero    |-> Store(7, Ecu1) \o StandardHeader(32, 1, 0),
  long    |-> Store(8, Ecu1) \o StandardHeader(32, 1, 65535),
  swallow |-> Store(9, Ecu2) \o StandardHeader(32, 2, 16) \o <<1, 2>>,     \* ten bytes of what follows belong to it
  nest    |-> Store(10, Ecu2) \o StandardHeader(32, 3, 27) \o <<0>> \o MinMsg \o <<68, 76>>,
  tail    |-> Store(11, Ecu2) \o StandardHeader(32, 4, 7) \o <<68, 76, 84>>,
  lone    |-> DltMarker,
  head    |-> Store(12, Ecu1),
  cut     |-> SubSeq(MinMsg, 1, 19),
  dlt     |-> <<68, 76, 84>>,
  dl      |-> <<68, 76>>,
  one     |-> <<1>>,
  junk    |-> <<84, 1, 68, 0, 255>> ]

AllPieces == DOMAIN Piece
FewPieces == {"min", "short", "long", "swallow", "nest", "tail", "one", "dl"}
SomePieces == {"min", "full", "long", "swallow", "nest", "lone", "tail", "one", "junk"}

RECURSIVE Glue(_, _)
Glue(l, i) == IF i > Len(l) THEN <<>> ELSE Piece[l[i]] \o Glue(l, i + 1)
Lay(l) == Glue(l, 1)

LayoutsUpTo(n, pieces) == UNION {[1..k -> pieces] : k \in 0..n}
=============================================================================
