----------------------------- MODULE FileAccess -----------------------------
(* Getting the bytes of a file, by mapping or by reading it. The operating   *)
(* system cuts reads, interrupts calls, or lets them fail.                   *)
EXTENDS Integers, Sequences

VARIABLES open,      \* the file is open
          got,       \* number of bytes read
          end,       \* the end of the file was seen
          mapped,    \* the file is mapped
          failed,    \* a call has failed
          result     \* "none", "ok", "error"
faVars == <<open, got, end, mapped, failed, result>>
FaInit == open = FALSE /\ got = 0 /\ end = FALSE /\ mapped = FALSE /\ failed = FALSE /\ result = "none"

Asked == result = "none"
Open == Asked /\ open' = TRUE /\ got' = 0 /\ end' = FALSE /\ UNCHANGED <<mapped, failed, result>>
Stat == Asked /\ UNCHANGED faVars
Read(len, k) == Asked /\ open /\ k >= 1 /\ got + k <= len /\ got' = got + k /\ UNCHANGED <<open, end, mapped, failed, result>>
ReadEnd(len) == Asked /\ open /\ got = len /\ end' = TRUE /\ UNCHANGED <<open, got, mapped, failed, result>>
Map(len, k) == Asked /\ open /\ (k >= len => mapped' = TRUE) /\ (k < len => mapped' = mapped) /\ UNCHANGED <<open, got, end, failed, result>>
Interrupted == Asked /\ UNCHANGED faVars
Fail == Asked /\ failed' = TRUE /\ UNCHANGED <<open, got, end, mapped, result>>

\* the whole file is there: mapped, read up to its end, or all bytes of a known length are read
Whole(len) == mapped \/ (open /\ got = len)
Give(len) == Asked /\ Whole(len) /\ result' = "ok" /\ UNCHANGED <<open, got, end, mapped, failed>>
Refuse == Asked /\ failed /\ result' = "error" /\ UNCHANGED <<open, got, end, mapped, failed>>

FaNext(len) == \/ Open \/ Stat \/ Interrupted \/ Fail \/ Give(len) \/ Refuse \/ ReadEnd(len)
               \/ \E k \in 1..len : Read(len, k)
               \/ \E k \in 0..len : Map(len, k)
Complete(len) == result = "ok" => Whole(len)
Shown == result = "error" => failed
=============================================================================
