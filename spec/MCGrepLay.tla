------------------------------ MODULE MCGrepLay -----------------------------
(* The same for longer buffers that consist of messages and other bytes.     *)
EXTENDS Grep, Kinds, TLC, Json
CONSTANTS MaxPieces, Offsets, Kind, Pats

Pieces0 == { <<1, 2, 1>>, <<1, 2, 2, 3>>, <<1, 2, 2, 4>>, <<1, 2, 3, 3, 3>>, <<1, 2, 3, 3, 4>>, <<1, 2, 3, 4, 3>>, <<1, 2, 3, 4, 4>>,
             <<1, 2, 3, 3, 1>>, <<1, 2, 0>>, <<1, 2, 3>>, <<3>>, <<4>>, <<3, 4>>, <<1>>, <<2>>, <<10>>, <<1, 2, 3, 4, 10>> }
RECURSIVE Glue(_, _)
Glue(l, i) == IF i > Len(l) THEN <<>> ELSE l[i] \o Glue(l, i + 1)

VARIABLES b, roots, pat, off
vars == <<b, roots, pat, off, pos, out, ended, s, at, far, hits, finished>>
Buffers == {x \in {Glue(l, 1) : l \in [1..MaxPieces -> Pieces0]} : Unnested(x)}
Init == /\ b \in Buffers /\ roots = RootSeq(b, 0) /\ pat \in Pats /\ off \in {o \in Offsets : o <= Len(b) + 1}
        /\ ScanInit(0) /\ GrepInit(off)
R == Small[pat].r
Next == (IF Kind = "grep" THEN GrepNext(b, R) ELSE CaptureNext(b, R)) /\ UNCHANGED <<b, roots, pat, off, pos, out, ended>>
Spec == Init /\ [][Next]_vars
InvExact == IF Kind = "grep" THEN GrepExact(b, roots, R, off) ELSE CaptureExact(b, roots, R, off)
InvWithin == Kind = "capture" => CaptureWithin(b, roots)
Case == finished => PrintT("@@" \o ToJson([b |-> b, p |-> Small[pat].s, f |-> off, o |-> hits]))
=============================================================================
