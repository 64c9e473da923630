----------------------------- MODULE FileReports ----------------------------
(* The reports over given files.                                             *)
EXTENDS Ripdlt, Json, IOUtils
Files == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, d
vars == <<t, d, acc, next, pos, out, ended>>
b == Files[t].b
Init == t \in 1..Len(Files) /\ d = <<>> /\ RipInit /\ ScanInit(0)
\* first the file is read
Read == ScanNext(b) /\ d' = (IF ended' THEN Digests(b, out) ELSE d) /\ UNCHANGED <<t, ripVars>>
Report == ended /\ RipNext(d) /\ UNCHANGED <<t, d, scanVars>>
Next == Read \/ Report
Spec == Init /\ [][Next]_vars
InvTotal == ended => RipTotal(d)
Case == ended /\ Reported(d) => PrintT("@@" \o ToJson([t |-> t, r |-> AllReports(b, out)]))
=============================================================================
