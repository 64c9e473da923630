------------------------------ MODULE MCFields ------------------------------
(* Messages with all header types and lengths around their header fields, in *)
(* the middle of other bytes, complete and cut.                              *)
EXTENDS DltFormat, TLC, Json
CONSTANTS HTyps, Lens, Infos, Pres, Posts

Distinct(n, seed) == [i \in 1..n |-> (i * 37 + seed) % 256]
VARIABLES h, n, info, pre, post, phase
vars == <<h, n, info, pre, post, phase>>

\* where the message info byte is, if there is one
ExtPos == 4 * (B2N(Bit(h, 2)) + B2N(Bit(h, 3)) + B2N(Bit(h, 4))) + 1
Tail0(k) == LET t == Distinct(k, 150) IN IF Bit(h, 0) /\ ExtPos <= k THEN [t EXCEPT ![ExtPos] = info] ELSE t
Message == DltMarker \o Distinct(12, 90) \o StandardHeader(h, 211, n) \o Tail0(IF n >= 4 THEN n - 4 ELSE 0)
Full == Distinct(pre, 3) \o Message
Buf == IF post >= 0 THEN Full \o Distinct(post, 77) ELSE SubSeq(Full, 1, Len(Full) + post)

Init == h \in HTyps /\ n \in Lens /\ info \in Infos /\ pre \in Pres /\ post \in Posts /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<h, n, info, pre, post>>
Spec == Init /\ [][Next]_vars

L == DltAt(Buf, pre)
F == DltFields(Buf, pre, L)
ELen == IF pre + StorageLen <= Len(Buf) THEN EntryLen(Buf, pre + StorageLen) ELSE 0

\* complete messages are read, others are not
InvComplete == phase = 1 => (L > 0 <=> post >= 0 /\ n >= 4)
\* the fields together are the message
InvWhole == phase = 1 /\ L > 0 =>
  /\ L = StorageLen + n
  /\ F.pattern \o Bytes(Buf, pre + 4, 8) \o F.ecu \o F.dlt.hdr \o F.dlt.tail = Bytes(Buf, pre, L)
  /\ F.dlt.payload # <<>> =>
       Len(F.dlt.payload[1]) = n - 4 - 4 * (B2N(Bit(h, 2)) + B2N(Bit(h, 3)) + B2N(Bit(h, 4))) - 10 * B2N(Bit(h, 0))
\* an absent payload means that a field does not fit
InvAbsent == phase = 1 /\ L > 0 /\ F.dlt.payload # <<>> =>
  (F.dlt.ecu_id # <<>> <=> Bit(h, 2)) /\ (F.dlt.timestamp # <<>> <=> Bit(h, 4)) /\ (F.dlt.ext # <<>> <=> Bit(h, 0))
\* a message is the same wherever it is
InvLocal == phase = 1 /\ L > 0 => F = DltFields(Message, 0, L)

Case == phase = 1 => PrintT("@@" \o ToJson(
  [b |-> Buf, p |-> pre,
   f |-> IF L > 0 THEN <<L, F>> ELSE <<>>,
   e |-> IF ELen > 0 THEN <<ELen, EntryFields(Buf, pre + StorageLen, ELen)>> ELSE <<>>,
   q |-> IF pre + StorageLen <= Len(Buf) THEN 1 ELSE 0]))

LowFlags == {v * 32 + x : v \in {1, 7}, x \in 0..31}
AllHTyps == 0..255
LensAll == 0..28
PostsAll == {-23, -21, -2, -1, 0, 2, 15}
PresAll == {0, 3}
=============================================================================
