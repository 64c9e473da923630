--------------------------- MODULE MCFileScripts ----------------------------
(* What the operating system does in the calls of one access: every sequence *)
(* of the given steps.                                                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxSteps
Steps == {"1", "2", "31", "i", "e5", "e21"}
VARIABLES o, s, m, r, method
vars == <<o, s, m, r, method>>
Init == /\ method \in {"mmap", "read"}
        /\ o \in {"-", "i", "i,i", "e13", "e2", "e24"}
        /\ s \in (IF method = "mmap" THEN {"-", "e5"} ELSE {"-"})
        /\ m \in (IF method = "mmap" THEN {"-", "e12", "e13"} ELSE {"-"})
        /\ r \in UNION {[1..k -> Steps] : k \in 0..(IF method = "read" /\ o = "-" THEN MaxSteps ELSE 1)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Case == PrintT("@@" \o ToJson([method |-> method, o |-> o, s |-> s, m |-> m, r |-> r]))
=============================================================================
