-------------------------------- MODULE Scan --------------------------------
(* Sequential reading of a buffer.                                           *)
EXTENDS Records

VARIABLES pos,       \* everything before is read
          out,       \* the messages: <<position, length>>
          ended
scanVars == <<pos, out, ended>>

ScanInit(from) == pos = from /\ out = <<>> /\ ended = FALSE

\* a complete message
Emit(b) ==
  /\ ~ended /\ Readable(b, pos)
  /\ out' = Append(out, <<pos, LenAt(b, pos)>>)
  /\ pos' = pos + LenAt(b, pos)
  /\ UNCHANGED ended

\* a marker without a complete message
Damaged(b) ==
  /\ ~ended /\ MarkerAt(b, pos) /\ ~Readable(b, pos)
  /\ pos' = pos + MLen
  /\ UNCHANGED <<out, ended>>

\* other bytes
Skip(b) ==
  /\ ~ended /\ ~MarkerAt(b, pos) /\ NextMarker(b, pos) # NoPos
  /\ pos' = NextMarker(b, pos)
  /\ UNCHANGED <<out, ended>>

End(b) ==
  /\ ~ended /\ NextMarker(b, pos) = NoPos
  /\ ended' = TRUE
  /\ UNCHANGED <<pos, out>>

ScanNext(b) == Emit(b) \/ Damaged(b) \/ Skip(b) \/ End(b)

-----------------------------------------------------------------------------
Starts == {out[i][1] : i \in 1..Len(out)}

Ordered == \A i \in 1..(Len(out) - 1) : out[i][1] + out[i][2] <= out[i + 1][1]
Complete(b) == \A i \in 1..Len(out) : Readable(b, out[i][1]) /\ out[i][2] = LenAt(b, out[i][1])
\* exactly the messages that do not start inside another one
Exact(b, from) == ended => IsRoots(b, from, Starts)
\* reading makes progress
Progress == [][~ended' => pos' > pos]_scanVars

\* The strict reader yields the same messages up to the first position without one.
RECURSIVE StrictFrom(_, _)
StrictFrom(b, p) == IF Readable(b, p) THEN <<<<p, LenAt(b, p)>>>> \o StrictFrom(b, p + LenAt(b, p)) ELSE <<>>
StrictIsPrefix(b, from) ==
  ended => LET s == StrictFrom(b, from) IN
             /\ Len(s) <= Len(out) /\ SubSeq(out, 1, Len(s)) = s
             /\ Len(s) < Len(out) => LET p == IF s = <<>> THEN from ELSE s[Len(s)][1] + s[Len(s)][2] IN out[Len(s) + 1][1] # p

\* the same result as a function
RECURSIVE RootSeq(_, _)
RootSeq(b, p) ==
  LET m == NextMarker(b, p) IN
  IF m = NoPos THEN <<>>
  ELSE IF Readable(b, m) THEN <<<<m, LenAt(b, m)>>>> \o RootSeq(b, m + LenAt(b, m))
  ELSE RootSeq(b, m + MLen)
=============================================================================
