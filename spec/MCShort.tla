------------------------------- MODULE MCShort ------------------------------
(* The reports over files with a message of any header type and length       *)
(* between two others: it is left out only of reports that need what it      *)
(* lacks.                                                                    *)
EXTENDS Ripdlt, Layouts, Json
CONSTANTS HTyps, Lens, Twice
Tail0(k) == [i \in 1..k |-> (i * 37 + 150) % 256]
Short(h, n, ecu) == StorageHeader(DltMarker, <<255, 4>>, <<0, 0>>, ecu) \o StandardHeader(h, 2, n) \o Tail0(n - 4)
Around1 == StorageHeader(DltMarker, <<255, 3>>, <<0, 0>>, Ecu1) \o StandardHeader(61, 1, 26) \o Ecu1 \o Tail0(18)
Around2 == StorageHeader(DltMarker, <<255, 9>>, <<0, 0>>, <<255, 254, 65, 10>>) \o StandardHeader(53, 3, 33) \o Ecu2 \o <<255, 255, 0, 0>> \o Tail0(10) \o HelloWorld

VARIABLES h, n, b, roots, d
vars == <<h, n, b, roots, d, acc, next, pos, out, ended>>
Init == /\ h \in HTyps /\ n \in Lens
        /\ b = Around1 \o Short(h, n, Ecu1) \o (IF Twice THEN Short(h, n, Ecu2) \o SubSeq(Short(h, n, Ecu2), 1, 15 + n) ELSE <<>>) \o Around2
        /\ roots = RootSeq(b, 0) /\ d = Digests(b, roots) /\ RipInit /\ ScanInit(0)
Next == RipNext(d) /\ UNCHANGED <<h, n, b, roots, d, scanVars>>
Spec == Init /\ [][Next]_vars
InvExact == RipExact(d)
InvTotal == RipTotal(d)
\* the messages around it are in all reports, the short one where it can be
InvLeftOut == Reported(d) /\ ~Twice =>
  /\ acc.n = 3 /\ acc.hello >= 1
  /\ Total(acc.types) = IF d[2].type = <<>> THEN 2 ELSE 3
  /\ Len(Timed(d)) = IF d[2].time = <<>> THEN 2 ELSE 3
LowTypes == {v * 32 + x : v \in {1}, x \in 0..31}
LensAll == 4..28
Case == Reported(d) => PrintT("@@" \o ToJson([b |-> b, r |-> AllReports(b, roots)]))
=============================================================================
