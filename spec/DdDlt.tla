------------------------------- MODULE DdDlt --------------------------------
(* dd_dlt turns its input into messages. What it reads and writes is cut     *)
(* into pieces by the operating system, interrupted, or fails.               *)
EXTENDS DdMessages

VARIABLES rd,        \* bytes read
          eof,       \* the end of the input was seen
          wr,        \* bytes written
          failed,    \* a read or a write has failed
          exit       \* "no", "ok", "error"
ioVars == <<rd, eof, wr, failed, exit>>
IoInit == rd = 0 /\ eof = FALSE /\ wr = 0 /\ failed = FALSE /\ exit = "no"

Running == exit = "no"
ReadSome(len, k) == Running /\ ~eof /\ k >= 1 /\ rd + k <= len /\ rd' = rd + k /\ UNCHANGED <<eof, wr, failed, exit>>
ReadEnd(len) == Running /\ rd = len /\ eof' = TRUE /\ UNCHANGED <<rd, wr, failed, exit>>
\* at every moment, only messages for what was read are written
WriteSome(size, k) == Running /\ k >= 1 /\ wr + k <= OutLen(rd, size) /\ wr' = wr + k /\ UNCHANGED <<rd, eof, failed, exit>>
Interrupted == Running /\ UNCHANGED ioVars
Fail == Running /\ failed' = TRUE /\ UNCHANGED <<rd, eof, wr, exit>>
Succeed(len, size) == Running /\ ~failed /\ eof /\ wr = OutLen(len, size) /\ exit' = "ok" /\ UNCHANGED <<rd, eof, wr, failed>>
GiveUp == Running /\ failed /\ exit' = "error" /\ UNCHANGED <<rd, eof, wr, failed>>
IoNext(len, size) == \/ \E k \in 1..(len - rd) : ReadSome(len, k)
                     \/ ReadEnd(len)
                     \/ \E k \in 1..(OutLen(rd, size) - wr) : WriteSome(size, k)
                     \/ Fail \/ Succeed(len, size) \/ GiveUp

Prefix(size) == wr <= OutLen(rd, size)
Complete(len, size) == exit = "ok" => rd = len /\ wr = OutLen(len, size) /\ ~failed
Shown == exit # "no" => (exit = "error") = failed
=============================================================================
