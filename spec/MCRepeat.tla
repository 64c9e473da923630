------------------------------ MODULE MCRepeat ------------------------------
(* Reports of a file that repeats a block of messages: whatever the block,   *)
(* one more copy adds the same to every count, so that the reports of a few  *)
(* copies give those of any number of copies. (Files with millions of        *)
(* messages are decided in this way.)                                        *)
EXTENDS MCRipdlt
CONSTANT Copies

RECURSIVE Times_(_, _)
Times_(s, k) == IF k = 0 THEN <<>> ELSE s \o Times_(s, k - 1)
D(k) == Times_(d, k)
\* bags grow by the same for every copy
CountIn(bag, k) == IF k \in DOMAIN bag THEN bag[k] ELSE 0
Linear(x, y, z) == /\ DOMAIN x \cup DOMAIN y \subseteq DOMAIN z
                   /\ \A k \in DOMAIN z : CountIn(z, k) - CountIn(y, k) = CountIn(y, k) - CountIn(x, k)
Steady(Rep(_)) == \A k \in 1..(Copies - 2) : Linear(Rep(D(k)), Rep(D(k + 1)), Rep(D(k + 2)))
One(n) == "n" :> n
SecsOf(s, e) == SecsOfEcus(s)[e]
LifeOf(s, e) == LifeOfEcus(s)[e]

\* the block as bytes: its copies are read one after the other
InvBytes   == \A k \in 1..Copies : RootSeq(Times_(b, k), 0) = [i \in 1..(k * Len(roots)) |->
                  LET r == roots[((i - 1) % Len(roots)) + 1] IN <<r[1] + ((i - 1) \div Len(roots)) * Len(b), r[2]>>]
InvCounts  == Steady(LAMBDA s : One(Len(s))) /\ Steady(LAMBDA s : One(Hellos(s))) /\ Steady(PaySizes) /\ Steady(Sizes) /\ Steady(Types)
InvLives   == /\ Steady(LAMBDA s : One(Lifecycles(s))) /\ Steady(LifeHistogram)
              /\ \A e \in Ecus(Timed(d)) : Steady(LAMBDA s : LifeOf(s, e)[1]) /\ Steady(LAMBDA s : One(LifeOf(s, e)[2]))
InvPeriods == Steady(SecsHistogram) /\ \A e \in Ecus(d) : Steady(LAMBDA s : One(SecsOf(s, e)[2]))
\* merged periods: from two copies on, nothing is added
InvMerged  == \A e \in Ecus(d), k \in 2..Copies : Unions(Periods(Of(D(k), e))) = Unions(Periods(Of(D(2), e)))
\* a search for a pattern sees the copies one after the other
InvHits    == Unnested(Times_(b, Copies)) /\ Len(roots) > 0 => Steady(LAMBDA s : One(Len(HelloHits(Times_(b, Len(s) \div Len(d)), RootSeq(Times_(b, Len(s) \div Len(d)), 0)))))
InvRaw     == Len(d) > 0 => Steady(LAMBDA s : One(RawHellos(Times_(b, Len(s) \div Len(d)))))

RInit == /\ lay \in LayoutsUpTo(MaxPieces, {x \in DOMAIN F : Len(F[x]) >= 20}) /\ lay # <<>>
         /\ b = Join(lay, 1) /\ roots = RootSeq(b, 0) /\ d = Digests(b, roots)
         /\ RipInit /\ ScanInit(0)
RSpec == RInit /\ [][UNCHANGED vars]_vars
=============================================================================
