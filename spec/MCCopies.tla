------------------------------ MODULE MCCopies ------------------------------
(* Reading, searching, lookups and cuts do the same in every copy of a       *)
(* block, for all small buffers, blocks and numbers of copies.               *)
EXTENDS Copies, Patterns, Kinds, TLC
CONSTANTS Alphabet, MaxPre, MaxBlock, MaxPost, MaxK, Pats

VARIABLES a, x, z, k
vars == <<a, x, z, k>>
Words(lo, hi) == UNION {[1..n -> Alphabet] : n \in lo..hi}
Init == /\ a \in Words(0, MaxPre) /\ x \in Words(1, MaxBlock) /\ z \in Words(0, MaxPost) /\ k \in 2..MaxK
        /\ Borders(a, x, k, z)
        /\ pos = 0 /\ out = <<>> /\ ended = TRUE /\ before = 0 /\ found = <<>> /\ over = TRUE
Next == UNCHANGED <<vars, scanVars, revVars>>
Spec == Init /\ [][Next]_<<vars, scanVars, revVars>>

N == Len(x)
E == Len(a) + N                  \* the end of the first copy
V_ == Repeated(a, x, 1, z)        \* two copies
W_ == Repeated(a, x, k, z)
To(q) == Fold(q, E, N, k)
\* from the first copy on, or before it
InvRead == \A f \in 0..E : RootSeq(W_, f) = Spread(RootSeq(V_, f), E, N, k)
InvStrictRead == \A f \in 0..E :
  LET r == StrictFrom(V_, f)
      all == r # <<>> /\ r[Len(r)][1] + r[Len(r)][2] >= E + N
      at == IF r = <<>> THEN f ELSE r[Len(r)][1] + r[Len(r)][2]
  IN  StrictFrom(W_, f) = IF at >= E + N THEN Spread(r, E, N, k) ELSE r
\* backwards from behind the copies, or from the last copy
InvRev == \A f \in (E + N)..Len(V_) : RevSeq(W_, f + (k - 1) * N) = SpreadBack(RevSeq(V_, f), E, N, k)
\* a lookup within a copy, or over the border of two of them, is the one in the short buffer
InvLookup == LET r == RootSeq(W_, 0) IN LET t == RootSeq(V_, 0) IN
  \A lo \in 0..Len(W_), w \in 1..(N + 1) : lo + w <= Len(W_) =>
    LET c == ContainerIn(r, lo, lo + w)
        q == To(lo)
        short == ContainerIn(t, q, IF q + w <= Len(V_) THEN q + w ELSE Len(V_) + 1)
    IN  c = IF short = <<>> THEN <<>> ELSE <<short[1] + lo - q, short[2]>>
InvCuts == LET r == RootSeq(W_, 0) IN LET t == RootSeq(V_, 0) IN
  \A c \in 1..Len(W_) : CutAllowed(r, Len(W_), c) <=> CutAllowed(t, Len(V_), To(c))
InvGrep == Unnested(W_) => Unnested(V_) /\ \A p \in Pats : \A f \in 0..E :
  LET r == Small[p].r
      h == CaptureOf(V_, RootSeq(V_, 0), r, f, 1)
      move(ms, d) == [i \in 1..Len(ms) |-> <<ms[i][1] + d, ms[i][2] + d, ms[i][3] + d>>]
      RECURSIVE Cs(_)
      Cs(j) == IF j = 0 THEN <<>> ELSE Cs(j - 1) \o move(Behind_(Upto(h, E + N), E), (j - 1) * N)
  IN  /\ GrepOf(W_, RootSeq(W_, 0), r, f, 1) = Spread(GrepOf(V_, RootSeq(V_, 0), r, f, 1), E, N, k)
      /\ CaptureOf(W_, RootSeq(W_, 0), r, f, 1) = Upto(h, E) \o Cs(k) \o move(Behind_(h, E + N), (k - 1) * N)
=============================================================================
