------------------------------ MODULE MCRipdlt ------------------------------
(* The reports over all sequences of a few kinds of messages.                *)
EXTENDS Ripdlt, Layouts, Json
CONSTANTS MaxPieces, Family

\* messages that differ in what the reports look at
Msg(secs, ecu, htyp, tail) == StorageHeader(DltMarker, secs, <<0, 7>>, ecu) \o StandardHeader(htyp, 9, 4 + Len(tail)) \o tail
S(n) == <<0, n>>
Tms(hi, lo) == ToBE32(<<hi, lo>>)
Times == [ t0    |-> Msg(S(5), Ecu1, 48, Tms(0, 0)),
           t1    |-> Msg(S(5), Ecu1, 48, Tms(0, 10001)),
           tmin  |-> Msg(S(5), Ecu2, 48, Tms(274, 43136)),         \* 1800 s
           tmin1 |-> Msg(S(5), Ecu1, 48, Tms(274, 43135)),
           tmax  |-> Msg(S(5), Ecu2, 48, Tms(65535, 65535)),
           id    |-> Msg(S(5), Ecu1, 52, Ecu2 \o Tms(0, 10000)),
           none  |-> Msg(S(5), Ecu1, 32, <<>>),
           short |-> Msg(S(5), Ecu2, 48, <<0, 1>>) ]                \* announces a timestamp, and has no room for it
Seconds == [ a0   |-> Msg(S(0), Ecu1, 32, <<>>), a1 |-> Msg(S(1), Ecu1, 32, <<>>), a2 |-> Msg(S(2), Ecu1, 32, <<>>), a3 |-> Msg(S(4), Ecu1, 32, <<>>),
             b0   |-> Msg(S(0), Ecu2, 32, <<>>), b2 |-> Msg(<<1, 0>>, Ecu2, 32, <<>>), bmax |-> Msg(<<65535, 65535>>, Ecu2, 32, <<>>) ]
Contents == [ hello |-> Msg(S(5), Ecu1, 32, <<33>> \o HelloWorld \o <<33>>),
              hw    |-> Msg(S(5), Ecu1, 32, <<72, 33>> \o World),
              half  |-> Msg(S(5), Ecu1, 33, ExtendedHeader(65, 1, <<72, 101, 108, 108>>, <<111, 32, 87, 111>>) \o <<114, 108, 100>>),   \* crosses the header
              warn  |-> Msg(S(5), Ecu2, 33, ExtendedHeader(48, 1, Ecu1, Ecu2)),
              odd   |-> Msg(S(5), Ecu2, 33, ExtendedHeader(255, 1, Ecu1, Ecu2) \o <<1>>),
              noext |-> Msg(S(5), Ecu2, 33, <<65, 1, 2>>),
              bare  |-> HelloWorld, nl |-> <<10>>, hurt |-> SubSeq(MinMsg, 1, 18), part |-> SubSeq(HelloWorld, 1, 4) ]
F == IF Family = "times" THEN Times ELSE IF Family = "seconds" THEN Seconds ELSE Contents
RECURSIVE Join(_, _)
Join(l, i) == IF i > Len(l) THEN <<>> ELSE F[l[i]] \o Join(l, i + 1)

VARIABLES lay, b, roots, d
vars == <<lay, b, roots, d, acc, next, pos, out, ended>>
Init == /\ lay \in LayoutsUpTo(MaxPieces, DOMAIN F)
        /\ b = Join(lay, 1) /\ roots = RootSeq(b, 0) /\ d = Digests(b, roots)
        /\ RipInit /\ ScanInit(0)
Next == RipNext(d) /\ UNCHANGED <<lay, b, roots, d, scanVars>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InvExact == RipExact(d)
InvTotal == RipTotal(d)
Terminates == <>Reported(d)
Case == Reported(d) => PrintT("@@" \o ToJson([b |-> b, r |-> AllReports(b, roots)]))
=============================================================================
