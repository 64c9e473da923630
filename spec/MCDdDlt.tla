------------------------------ MODULE MCDdDlt -------------------------------
(* How dd_dlt works: it reads into a buffer, takes chunks from it, puts      *)
(* messages into a second buffer, and writes from this one when it is full,  *)
(* or in between, and at the end. The operating system returns any number of *)
(* bytes, interruptions and failures. All of this is a behaviour of DdDlt.   *)
EXTENDS DdDlt, TLC, Json
CONSTANTS MaxIn, MaxSizes, InCap, OutCap, MaxStops, HLen

VARIABLES len, size,          \* the task
          ib,                 \* bytes in the input buffer
          chunk,              \* bytes of the chunk that are there
          ob,                 \* bytes in the output buffer
          todo,               \* bytes of the message that are not yet in the output buffer
          stops,              \* interruptions so far
          at                  \* "read" "put" "flush" "end" "fail"
impl == <<len, size, ib, chunk, ob, todo, stops, at>>
vars == <<impl, ioVars>>
Init == /\ len \in 0..MaxIn /\ size \in 1..MaxSizes
        /\ ib = 0 /\ chunk = 0 /\ ob = 0 /\ todo = 0 /\ stops = 0 /\ at = "read" /\ IoInit

Stop == /\ stops < MaxStops /\ at \in {"read", "put", "flush"} /\ Interrupted /\ stops' = stops + 1 /\ UNCHANGED <<len, size, ib, chunk, ob, todo, at>>
Fill == /\ at = "read" /\ ib = 0 /\ chunk < size
        /\ \/ \E k \in 1..InCap : ReadSome(len, k) /\ ib' = k /\ UNCHANGED <<len, size, chunk, ob, todo, stops, at>>
           \/ ReadEnd(len) /\ at' = "flush" /\ UNCHANGED <<len, size, ib, chunk, ob, todo, stops>>
           \/ Fail /\ at' = "fail" /\ UNCHANGED <<len, size, ib, chunk, ob, todo, stops>>
Copy == /\ at = "read" /\ ib > 0 /\ chunk < size
        /\ LET k == IF ib < size - chunk THEN ib ELSE size - chunk IN ib' = ib - k /\ chunk' = chunk + k
        /\ UNCHANGED <<len, size, ob, todo, stops, at, ioVars>>
Form == /\ at = "read" /\ chunk = size /\ chunk' = 0 /\ todo' = HLen + size /\ at' = "put"
        /\ UNCHANGED <<len, size, ib, ob, stops, ioVars>>
Put  == /\ at = "put" /\ todo > 0 /\ ob < OutCap
        /\ LET k == IF todo < OutCap - ob THEN todo ELSE OutCap - ob IN todo' = todo - k /\ ob' = ob + k
        /\ UNCHANGED <<len, size, ib, chunk, stops, at, ioVars>>
Back == /\ at = "put" /\ todo = 0 /\ at' = "read" /\ UNCHANGED <<len, size, ib, chunk, ob, todo, stops, ioVars>>
Write == /\ at \in {"put", "flush"} /\ ob > 0
         /\ \/ \E k \in 1..ob : WriteSome(size, k) /\ ob' = ob - k /\ UNCHANGED <<len, size, ib, chunk, todo, stops, at>>
            \/ Fail /\ at' = "fail" /\ UNCHANGED <<len, size, ib, chunk, ob, todo, stops>>
\* what is left in the buffer may still be written
Rest == at = "fail" /\ ob > 0 /\ \E k \in 1..ob : WriteSome(size, k) /\ ob' = ob - k /\ UNCHANGED <<len, size, ib, chunk, todo, stops, at>>
End == \/ at = "flush" /\ ob = 0 /\ Succeed(len, size) /\ at' = "end" /\ UNCHANGED <<len, size, ib, chunk, ob, todo, stops>>
       \/ at = "fail" /\ GiveUp /\ at' = "end" /\ UNCHANGED <<len, size, ib, chunk, ob, todo, stops>>
Next == Stop \/ Fill \/ Copy \/ Form \/ Put \/ Back \/ Write \/ Rest \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SmallHeader == HLen

InvPrefix == Prefix(size)
InvComplete == Complete(len, size)
InvShown == Shown
\* no byte is lost between the buffers
InvBytes == /\ rd = ((wr + ob + todo) \div (HLen + size)) * size + ib + chunk
            /\ (wr + ob + todo) % (HLen + size) = 0
\* the machine does nothing that is not allowed from outside
Refines == [][IoNext(len, size) \/ UNCHANGED ioVars]_ioVars
Terminates == <>(exit # "no")
=============================================================================
