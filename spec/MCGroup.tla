------------------------------ MODULE MCGroup -------------------------------
(* All short sequences, and relations of all sorts.                          *)
EXTENDS Group, Json
CONSTANTS Rels, SeqLen, Hi0
VARIABLES rel, in
vars == <<rel, in, fed, run, runs, over, pos, mach, at, result>>
Seqs == UNION {[1..n -> {<<v>> : v \in 0..Hi0}] : n \in 0..SeqLen}
Init == rel \in Rels /\ in \in Seqs /\ GroupInit /\ pos = 0 /\ mach = 0 /\ at = 0 /\ result = 0
Next == GroupNext(rel, in) /\ UNCHANGED <<rel, in, pushVars>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InvGroup == GroupOK(rel, in)
InvPartition == over => RunsPartition(rel, in)
Terminates == <>over
Case == over => PrintT("@@" \o ToJson([r |-> rel, s |-> in, o |-> runs]))
=============================================================================
