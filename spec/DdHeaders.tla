----------------------------- MODULE DdHeaders ------------------------------
(* Headers of given messages of dd_dlt, and whether sizes are carried.       *)
EXTENDS DdMessages, Json, IOUtils, TLC
Asked == JsonDeserialize(IOEnv.TRACES)
VARIABLE t
Init == t \in 1..Len(Asked)
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
Q == Asked[t]
\* a header reads back as what it was built from
\* message 100 * s + r
H == HeaderAt(Q.s, Q.r, Q.size, Q.ecu, Q.app)
n == 100 * Q.s + Q.r
Fields == LET d == EntryFields(H \o [j \in 1..Q.size |-> 0], 16, 18 + Q.size) IN
          /\ d.timestamp = <<TicksAt(Q.s, Q.r)>> /\ d.ecu_id = <<>> 
          /\ d.ext # <<>> /\ d.ext[1].verbose /\ d.ext[1].type = <<"LogInfo">>
          /\ d.payload # <<>> /\ Len(d.payload[1]) = Q.size
\* as long as numbers are small, by the definition
InvSmall == Q.s < 2^24 => /\ TicksAt(Q.s, Q.r) = Ticks(n)
                           /\ Carried(Q.size) => H[18] = n % 256
InvHeader == Carried(Q.size) => /\ Len(H) = HeaderLen /\ DltAt(H \o [j \in 1..Q.size |-> 0], 0) = HeaderLen + Q.size
                                /\ Q.size < 100 => Fields
Case == PrintT("@@" \o ToJson([t |-> t, ok |-> Carried(Q.size), h |-> IF Carried(Q.size) THEN H ELSE <<>>]))
=============================================================================
