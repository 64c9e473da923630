------------------------------ MODULE Contain -------------------------------
(* The outermost message around a range of bytes, and partitioning.          *)
EXTENDS Scan

\* the message of the sequential reading that starts before lo and contains lo .. hi - 1
ContainerIn(roots, lo, hi) ==
  LET c == {i \in 1..Len(roots) : roots[i][1] < lo /\ lo < roots[i][1] + roots[i][2] /\ hi <= roots[i][1] + roots[i][2]}
  IN  IF lo < hi /\ c # {} THEN roots[CHOOSE i \in c : TRUE] ELSE <<>>

-----------------------------------------------------------------------------
(* The lookup without reading the whole buffer: go back to the start of the  *)
(* chain of overlapping messages that reaches over the position; no message  *)
(* is longer than MaxRec. Then read forward.                                 *)
RECURSIVE Back(_, _, _)
Back(b, q, start) ==
  IF q < 0 \/ start - q > MaxRec THEN start
  ELSE Back(b, q - 1, IF Readable(b, q) /\ q + LenAt(b, q) > start THEN q ELSE start)
Sync(b, p) == Back(b, p - 1, p)

RECURSIVE ForwardTo(_, _, _, _)
ForwardTo(b, p, lo, hi) ==
  LET m == NextMarker(b, p) IN
  IF m = NoPos \/ m >= lo THEN <<>>
  ELSE IF ~Readable(b, m) THEN ForwardTo(b, m + MLen, lo, hi)
  ELSE IF m + LenAt(b, m) <= lo THEN ForwardTo(b, m + LenAt(b, m), lo, hi)
  ELSE IF hi <= m + LenAt(b, m) THEN <<m, LenAt(b, m)>> ELSE <<>>

Lookup(b, lo, hi) == IF lo < hi /\ hi <= Len(b) THEN ForwardTo(b, Sync(b, lo), lo, hi) ELSE <<>>

-----------------------------------------------------------------------------
(* Partitions of a buffer: each is cut off behind the one before. A cut may  *)
(* be made at any position that is not inside a message.                     *)
CutAllowed(roots, n, c) == c \in 1..n /\ \A i \in 1..Len(roots) : ~(roots[i][1] < c /\ c < roots[i][1] + roots[i][2])

\* parts: sequence of lengths
PartitionOK(b, roots, parts) ==
  LET RECURSIVE Cuts(_, _)
      Cuts(i, at) == IF i > Len(parts) THEN at = Len(b)
                     ELSE parts[i] > 0 /\ CutAllowed(roots, Len(b), at + parts[i]) /\ Cuts(i + 1, at + parts[i])
  IN  Cuts(1, 0)

\* One of num partitions, at .. at + len: it is not longer than its share of the buffer, unless a message starts there
\* that is longer; the last one may have up to a quarter more, so that no small rest remains
Share(n, num) == IF n \div num > 0 THEN n \div num ELSE 1
ShareOK(roots, n, num, at, len) ==
  LET more == IF at + len = n THEN Share(n, num) \div 4 ELSE 0 IN
  \/ len - more <= Share(n, num)
  \/ \E i \in 1..Len(roots) : roots[i][1] = at /\ len - more <= roots[i][2]
\* nor are there many small ones: two neighbours have more than a share
PairOK(n, num, len1, len2) == len1 + len2 > Share(n, num)
SharesOK(roots, n, num, parts) ==
  LET RECURSIVE From(_, _)
      From(i, at) == i > Len(parts) \/ (/\ ShareOK(roots, n, num, at, parts[i])
                                        /\ (i > 1 => PairOK(n, num, parts[i - 1], parts[i]))
                                        /\ From(i + 1, at + parts[i]))
  IN  From(1, 0)

\* reading the partitions one after the other
ReadParts(b, parts) ==
  LET RECURSIVE From(_, _)
      From(i, at) == IF i > Len(parts) THEN <<>>
                     ELSE LET r == RootSeq(SubSeq(b, at + 1, at + parts[i]), 0) IN
                          [j \in 1..Len(r) |-> <<at + r[j][1], r[j][2]>>] \o From(i + 1, at + parts[i])
  IN  From(1, 0)

\* num partitions of about the same size: the cut is made at the message that contains the
\* position, or behind it if the message is the first one of the partition; a short rest
\* belongs to the last partition
Partition(b, num) ==
  LET n == Len(b)
      size == Share(n, num)
      RECURSIVE From(_)
      From(at) ==
        IF at >= n THEN <<>>
        ELSE IF at + size > n THEN <<n - at>>
        ELSE LET c == Lookup(b, at + size, at + size + 1)
                 cut == IF c = <<>> THEN at + size ELSE IF c[1] > at THEN c[1] ELSE c[1] + c[2]
             IN  IF cut + size \div 4 >= n THEN <<n - at>> ELSE <<cut - at>> \o From(cut)
  IN  From(0)
=============================================================================
