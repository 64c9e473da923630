-------------------------------- MODULE Grep --------------------------------
(* Searching the messages that match a pattern.                              *)
EXTENDS Matching

(* The search as it is done: look for the pattern in the whole buffer, then  *)
(* at the messages that the match overlaps, one by one, as the match can     *)
(* hide others. Everything before s is searched.                             *)
VARIABLES s,
          at,        \* the marker that is looked at, or NoPos
          far,       \* the match ends here
          hits,      \* grep: messages; capture: <<message, start, end>>
          finished
grepVars == <<s, at, far, hits, finished>>
GrepInit(off) == s = off /\ at = NoPos /\ far = 0 /\ hits = <<>> /\ finished = FALSE

\* the message in which a position lies, behind its marker
Around(b, p) == LET q == LastMarker(b, p) IN IF q # NoPos /\ Readable(b, q) /\ p < q + LenAt(b, q) THEN q ELSE NoPos
\* the next marker that ends behind p
EndsBehind(b, p) == NextMarker(b, IF p + 1 >= MLen THEN p + 1 - MLen ELSE 0)

Look(b, r) ==
  /\ ~finished /\ at = NoPos
  /\ LET m == IF s < Len(b) THEN Find(b, r, s, Len(b), Len(b)) ELSE NoMatch
         q == IF m = NoMatch THEN NoPos ELSE IF Around(b, m[1]) # NoPos THEN Around(b, m[1]) ELSE EndsBehind(b, m[1])
     IN  /\ at' = q /\ finished' = (q = NoPos) /\ far' = IF q = NoPos THEN far ELSE m[2]
  /\ UNCHANGED <<s, hits>>

Behind == at + MLen
From == IF s >= Behind THEN s ELSE Behind
EndOf(b) == IF Readable(b, at) THEN at + LenAt(b, at) ELSE Behind

\* what the marker at `at` contributes: nothing
Miss(b) ==
  LET e == EndOf(b)
      q == NextMarker(b, e)
  IN  /\ s' = e
      /\ at' = IF e >= far \/ q >= far THEN NoPos ELSE q
      /\ finished' = (e < far /\ q = NoPos)
      /\ UNCHANGED <<far, hits>>
\* or the hit h
Take(b, h) == hits' = Append(hits, h) /\ s' = EndOf(b) /\ at' = NoPos /\ UNCHANGED <<far, finished>>

VisitGrep(b, r) ==
  /\ ~finished /\ at # NoPos
  /\ IF Readable(b, at) /\ From < EndOf(b) /\ Find(b, r, From, EndOf(b) - 1, EndOf(b)) # NoMatch
     THEN Take(b, <<at, LenAt(b, at)>>) ELSE Miss(b)
VisitCapture(b, r) ==
  /\ ~finished /\ at # NoPos
  /\ LET g == IF Readable(b, at) /\ From < EndOf(b) THEN FirstCapture(b, r, From, EndOf(b)) ELSE <<>>
     IN  IF g # <<>> THEN Take(b, <<at>> \o g) ELSE Miss(b)

GrepNext(b, r) == Look(b, r) \/ VisitGrep(b, r)
CaptureNext(b, r) == Look(b, r) \/ VisitCapture(b, r)

GrepExact(b, roots, r, off) == finished => hits = GrepOf(b, roots, r, off, 1)
CaptureExact(b, roots, r, off) == finished => hits = CaptureOf(b, roots, r, off, 1)
\* a captured range lies in its message
CaptureWithin(b, roots) == \A i \in 1..Len(hits) : \E j \in 1..Len(roots) :
                             roots[j][1] = hits[i][1] /\ roots[j][1] < hits[i][2] /\ hits[i][2] <= hits[i][3] /\ hits[i][3] <= roots[j][1] + roots[j][2]
=============================================================================
