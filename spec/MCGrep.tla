------------------------------- MODULE MCGrep -------------------------------
(* All patterns of a list, on all small buffers in which no marker starts    *)
(* inside a message.                                                         *)
EXTENDS Grep, Kinds, TLC, Json
CONSTANTS Alphabet, MinN, MaxN, Offsets, Kind, Pats

VARIABLES b, roots, pat, off
vars == <<b, roots, pat, off, pos, out, ended, s, at, far, hits, finished>>

Buffers == {x \in UNION {[1..n -> Alphabet] : n \in MinN..MaxN} : Unnested(x)}
Init == /\ b \in Buffers /\ roots = RootSeq(b, 0) /\ pat \in Pats /\ off \in {o \in Offsets : o <= Len(b) + 1}
        /\ ScanInit(0) /\ GrepInit(off)
R == Small[pat].r
Next == (IF Kind = "grep" THEN GrepNext(b, R) ELSE CaptureNext(b, R)) /\ UNCHANGED <<b, roots, pat, off, pos, out, ended>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>finished
InvExact == IF Kind = "grep" THEN GrepExact(b, roots, R, off) ELSE CaptureExact(b, roots, R, off)
InvWithin == Kind = "capture" => CaptureWithin(b, roots)
Case == finished => PrintT("@@" \o ToJson([b |-> b, p |-> Small[pat].s, f |-> off, o |-> hits]))
=============================================================================
