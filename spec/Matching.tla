------------------------------ MODULE Matching ------------------------------
(* Which messages match a pattern, in buffers in which no marker starts      *)
(* inside a message.                                                         *)
EXTENDS Scan, Patterns

\* A message matches if the pattern matches within the bytes behind its marker and before its
\* end, and not before offset off.
Window(b, p, off) == LET lo == p + MLen IN [lo |-> IF lo >= off THEN lo ELSE off, hi |-> p + LenAt(b, p)]
InMessage(b, r, p, off) == LET w == Window(b, p, off) IN Find(b, r, w.lo, w.hi - 1, w.hi)

RECURSIVE FirstCapture(_, _, _, _)
\* the range of the group in the first match with it; matches do not overlap
FirstCapture(b, r, lo, hi) ==
  LET m == Find(b, r, lo, hi - 1, hi) IN
  IF m = NoMatch THEN <<>>
  ELSE IF m[3] # <<>> THEN m[3]
  ELSE FirstCapture(b, r, IF m[2] > m[1] THEN m[2] ELSE m[1] + 1, hi)

RECURSIVE GrepOf(_, _, _, _, _), CaptureOf(_, _, _, _, _)
GrepOf(b, roots, r, off, i) ==
  IF i > Len(roots) THEN <<>>
  ELSE (IF InMessage(b, r, roots[i][1], off) # NoMatch THEN <<roots[i]>> ELSE <<>>) \o GrepOf(b, roots, r, off, i + 1)
CaptureOf(b, roots, r, off, i) ==
  IF i > Len(roots) THEN <<>>
  ELSE LET w == Window(b, roots[i][1], off)
           g == FirstCapture(b, r, w.lo, w.hi)
       IN  (IF g # <<>> THEN <<<<roots[i][1], g[1], g[2]>>>> ELSE <<>>) \o CaptureOf(b, roots, r, off, i + 1)
=============================================================================
