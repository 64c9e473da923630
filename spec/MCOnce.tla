------------------------------- MODULE MCOnce -------------------------------
(* The answers to single questions are those of reading and of searching     *)
(* backwards, for all buffers and offsets; every question is a case.         *)
EXTENDS Once, Kinds, TLC, Json
CONSTANTS Alphabet, MinN, MaxN
VARIABLES b, f
vars == <<b, f, pos, out, ended>>
Buffers == UNION {[1..n -> Alphabet] : n \in MinN..MaxN}
Init == b \in Buffers /\ f \in 0..(Len(b) + 2) /\ ScanInit(f)
Next == ScanNext(b) /\ UNCHANGED <<b, f>>
Spec == Init /\ [][Next]_vars

\* the first message that is read from f on
InvFwd == ended => NextOf(b, f) = (IF out = <<>> THEN <<>> ELSE out[1])
\* the last message whose marker lies before f
InvRev == LET r == LastOf(b, Clip(b, f)) IN
            /\ r = <<>> <=> ~\E p \in 0..Len(b) : Readable(b, p) /\ p + MLen <= f
            /\ r # <<>> => /\ Readable(b, r[1]) /\ r[1] + MLen <= f /\ r[2] = LenAt(b, r[1])
                           /\ ~\E p \in (r[1] + 1)..Len(b) : Readable(b, p) /\ p + MLen <= f
\* a search never misses a message at the nearest marker
InvNear == \A k \in {"fwd1", "rev1"} : <<>> \in Answers(b, k, f) =>
             \/ f > Len(b)
             \/ LET q == IF k = "fwd1" THEN NextMarker(b, f) ELSE LastMarker(b, f) IN q = NoPos \/ ~Readable(b, q)
Kindsof == {"fwd1", "rev1"} \cup (IF f <= Len(b) THEN {"mark1", "last1"} ELSE {})
Case == ended => PrintT("@@" \o ToJson([b |-> b, f |-> f, o |-> [k \in Kindsof |-> Answers(b, k, f)]]))
=============================================================================
