----------------------------- MODULE RevSearch ------------------------------
(* Searching messages backwards.                                             *)
EXTENDS Records

VARIABLES before,    \* markers are searched before this position
          found, over
revVars == <<before, found, over>>

RevInit(b, from) == before = (IF from <= Len(b) THEN from ELSE Len(b)) /\ found = <<>> /\ over = FALSE

RevEmit(b) ==
  LET p == LastMarker(b, before) IN
  /\ ~over /\ p # NoPos /\ Readable(b, p)
  /\ found' = Append(found, <<p, LenAt(b, p)>>)
  /\ before' = p
  /\ UNCHANGED over

RevDamaged(b) ==
  LET p == LastMarker(b, before) IN
  /\ ~over /\ p # NoPos /\ ~Readable(b, p)
  /\ before' = p
  /\ UNCHANGED <<found, over>>

RevEnd(b) ==
  /\ ~over /\ LastMarker(b, before) = NoPos
  /\ over' = TRUE
  /\ UNCHANGED <<before, found>>

RevNext(b) == RevEmit(b) \/ RevDamaged(b) \/ RevEnd(b)

\* descending, and every complete message whose marker lies before the start offset
Descending == \A i \in 1..(Len(found) - 1) : found[i][1] > found[i + 1][1]
AllBefore(b, from) == over => {found[i][1] : i \in 1..Len(found)} = {p \in 0..Len(b) : Readable(b, p) /\ p + MLen <= from}
Lengths(b) == \A i \in 1..Len(found) : found[i][2] = LenAt(b, found[i][1])
=============================================================================
