-------------------------------- MODULE Once --------------------------------
(* A single question to a searcher: the next marker, the last marker, the    *)
(* next or the last message. Offsets may lie behind the end of the buffer.   *)
EXTENDS Scan

Clip(b, f) == IF f <= Len(b) THEN f ELSE Len(b)

RECURSIVE LastOf(_, _)
LastOf(b, f) ==
  LET q == LastMarker(b, f) IN
  IF q = NoPos THEN <<>> ELSE IF Readable(b, q) THEN <<q, LenAt(b, q)>> ELSE LastOf(b, q)
NextOf(b, f) == LET s == RootSeq(b, f) IN IF s = <<>> THEN <<>> ELSE s[1]

(* A single search looks at the nearest marker. If the message there is      *)
(* damaged, it may answer that there is none, or go on.                      *)
FwdAnswers(b, f) ==
  LET q == NextMarker(b, f) IN
  IF q = NoPos THEN {<<>>} ELSE IF Readable(b, q) THEN {<<q, LenAt(b, q)>>} ELSE {<<>>, NextOf(b, f)}
RevAnswers(b, f) ==
  LET q == LastMarker(b, Clip(b, f)) IN
  IF q = NoPos THEN {<<>>}
  ELSE (IF Readable(b, q) THEN {<<q, LenAt(b, q)>>} ELSE {<<>>, LastOf(b, Clip(b, f))}) \cup (IF f > Len(b) THEN {<<>>} ELSE {})
Position(p) == IF p = NoPos THEN <<>> ELSE <<p>>

Answers(b, k, f) ==
  CASE k = "mark1" -> {Position(NextMarker(b, f))}
    [] k = "last1" -> {Position(LastMarker(b, f))}
    [] k = "fwd1" -> FwdAnswers(b, f)
    [] k = "rev1" -> RevAnswers(b, f)
=============================================================================
