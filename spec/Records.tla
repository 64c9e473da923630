------------------------------ MODULE Records -------------------------------
(* Buffers of bytes that contain messages. A message starts with a marker;   *)
(* RecLen(b, p) is the length of the complete message at the marker at p, or *)
(* 0 if the message is damaged. Positions start at 0; b is a sequence.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Marker,          \* the bytes of the marker; it cannot overlap itself
          RecLen(_, _),
          MaxRec           \* no message is longer

MLen == Len(Marker)

MarkerAt(b, p) == p + MLen <= Len(b) /\ \A i \in 1..MLen : b[p + i] = Marker[i]
LenAt(b, p) == IF MarkerAt(b, p) THEN RecLen(b, p) ELSE 0
Readable(b, p) == LenAt(b, p) > 0

NoPos == -1

\* the first marker at or behind position p
NextMarker(b, p) ==
  IF \E q \in p..(Len(b) - MLen) : MarkerAt(b, q)
  THEN CHOOSE q \in p..(Len(b) - MLen) : MarkerAt(b, q) /\ \A r \in p..(q - 1) : ~MarkerAt(b, r)
  ELSE NoPos

\* the last marker that lies before position p
LastMarker(b, p) ==
  LET at(d) == p - MLen - d IN
  IF \E d \in 0..(p - MLen) : MarkerAt(b, at(d))
  THEN at(CHOOSE d \in 0..(p - MLen) : MarkerAt(b, at(d)) /\ \A e \in 0..(d - 1) : ~MarkerAt(b, at(e)))
  ELSE NoPos

\* R is the set of the messages that reading from position f yields: every complete
\* message that does not start inside another one of them
IsRoots(b, f, R) ==
  \A p \in f..Len(b) :
    p \in R <=> Readable(b, p) /\ ~\E q \in R : q < p /\ p < q + LenAt(b, q)

\* no marker starts inside a message
Unnested(b) == \A p \in 0..Len(b) : Readable(b, p) =>
                 \A q \in (p + 1)..(p + LenAt(b, p) - 1) : ~MarkerAt(b, q)

ASSUME MLen > 0
ASSUME \A k \in 1..(MLen - 1) : SubSeq(Marker, 1, MLen - k) # SubSeq(Marker, k + 1, MLen)
=============================================================================
