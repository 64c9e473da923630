---------------------------- MODULE MCFileAccess ----------------------------
(* The two methods, step by step: reading goes on until the end of the file  *)
(* is seen, into a buffer that grows; mapping needs the length of the file,  *)
(* and a file without a length is read.                                      *)
EXTENDS FileAccess
CONSTANTS MaxLen, Cap0, MaxStops
VARIABLES len, method, at, cap, stops
impl == <<len, method, at, cap, stops>>
vars == <<impl, faVars>>
Init == len \in 0..MaxLen /\ method \in {"mmap", "read"} /\ at = "open" /\ cap = 0 /\ stops = 0 /\ FaInit
Same == UNCHANGED <<len, method>>
Stop == /\ stops < MaxStops /\ at \in {"open", "read"} /\ Interrupted /\ stops' = stops + 1 /\ UNCHANGED <<at, cap>> /\ Same
Error == at \in {"open", "stat", "map", "read"} /\ Fail /\ at' = "error" /\ UNCHANGED <<cap, stops>> /\ Same
DoOpen == at = "open" /\ Open /\ at' = (IF method = "mmap" /\ ~open THEN "stat" ELSE "read") /\ cap' = Cap0 /\ UNCHANGED stops /\ Same
DoStat == at = "stat" /\ Stat /\ at' = (IF len = 0 THEN "open" ELSE "map") /\ UNCHANGED <<cap, stops>> /\ Same
DoMap == at = "map" /\ Map(len, len) /\ at' = "give" /\ UNCHANGED <<cap, stops>> /\ Same
Grow == at = "read" /\ got = cap /\ cap' = 2 * cap /\ UNCHANGED <<at, stops, faVars>> /\ Same
DoRead == at = "read" /\ got < cap /\ (\E k \in 1..(cap - got) : Read(len, k)) /\ UNCHANGED <<at, cap, stops>> /\ Same
DoEnd == at = "read" /\ got < cap /\ ReadEnd(len) /\ at' = "give" /\ UNCHANGED <<cap, stops>> /\ Same
DoGive == at = "give" /\ Give(len) /\ at' = "done" /\ UNCHANGED <<cap, stops>> /\ Same
DoRefuse == at = "error" /\ Refuse /\ at' = "done" /\ UNCHANGED <<cap, stops>> /\ Same
Next == Stop \/ Error \/ DoOpen \/ DoStat \/ DoMap \/ Grow \/ DoRead \/ DoEnd \/ DoGive \/ DoRefuse
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InvComplete == Complete(len)
InvShown == Shown
\* never less than the file, and no error without a reason
InvEither == at = "done" => IF failed THEN result = "error" ELSE result = "ok"
Refines == [][FaNext(len) \/ UNCHANGED faVars]_faVars
Terminates == <>(result # "none")
=============================================================================
