------------------------------- MODULE MCPar --------------------------------
(* All ways to cut small files into slices, and all schedules.               *)
EXTENDS ParScan, Layouts, Json
CONSTANTS MaxPieces, MaxParts, Workers
Msg(secs, ecu, htyp, tail) == StorageHeader(DltMarker, <<0, secs>>, <<0, 7>>, ecu) \o StandardHeader(htyp, 9, 4 + Len(tail)) \o tail
F == [ a0 |-> Msg(0, Ecu1, 32, HelloWorld), a1 |-> Msg(2, Ecu1, 48, <<1, 18, 168, 128>>), b0 |-> Msg(1, Ecu2, 48, <<0, 0, 0, 0>>),
       junk |-> <<68, 76>>, cut |-> SubSeq(MinMsg, 1, 19), long |-> Store(8, Ecu1) \o StandardHeader(32, 1, 26) ]
RECURSIVE Join(_, _)
Join(l, i) == IF i > Len(l) THEN <<>> ELSE F[l[i]] \o Join(l, i + 1)

VARIABLES b, roots, ends, res
vars == <<b, roots, ends, res, todo, busy, done, acc, next, pos, out, ended>>
\* cuts at which slices end; equal ones in junk are represented by message ends and starts, and the bytes beside them
Cuts(bb, rr) == {c \in {rr[i][1] : i \in 1..Len(rr)} \cup {rr[i][1] + rr[i][2] : i \in 1..Len(rr)} \cup {1, Len(bb) - 1} : CutAllowed(rr, Len(bb), c)} \ {Len(bb)}
SliceBytes(bb, es, i) == SubSeq(bb, (IF i = 1 THEN 0 ELSE es[i - 1]) + 1, es[i])
SliceResult(s) == LET r == RootSeq(s, 0) IN Sub(Digests(s, r), Len(HelloHits(s, r)))
Init == /\ \E lay \in LayoutsUpTo(MaxPieces, DOMAIN F) : b = Join(lay, 1)
        /\ b # <<>> /\ roots = RootSeq(b, 0)
        /\ \E C \in {C \in SUBSET Cuts(b, roots) : Cardinality(C) < MaxParts} :
             ends = SetToSortSeq(C \cup {Len(b)}, LAMBDA i, j : i < j)
        /\ res = [i \in 1..Len(ends) |-> SliceResult(SliceBytes(b, ends, i))]
        /\ ParInit(Len(ends)) /\ RipInit /\ ScanInit(0)
Next == ParNext(Workers, res) /\ UNCHANGED <<b, roots, ends, res, ripVars, scanVars>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>ParDone(Len(ends))

Seq0 == SliceResult(b)
RECURSIVE SumSlices(_)
SumSlices(i) == IF i = 0 THEN Nothing ELSE Join2(SumSlices(i - 1), res[i])
\* counts are those of the whole file, whatever the slices and the schedule; histograms are sums
InvSame == ParDone(Len(ends)) =>
  /\ ParResult.count = Seq0.count /\ ParResult.hello = Seq0.hello /\ ParResult.ecus = Seq0.ecus
  /\ Unnested(b) => ParResult.grep = Seq0.grep
InvSum == ParDone(Len(ends)) => ParResult = SumSlices(Len(ends))
Case == ParDone(Len(ends)) /\ Len(ends) = 1 => PrintT("@@" \o ToJson([b |-> b]))
=============================================================================
