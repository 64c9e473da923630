----------------------------- MODULE DltFormat ------------------------------
(* The DLT v1 format, byte by byte. Numbers of 32 bits are pairs             *)
(* <<high 16 bits, low 16 bits>>; what may be absent is <<>> or <<value>>.   *)
(*                                                                           *)
(*  storage header  0 marker "DLT" 1 | 4 seconds LE | 8 microseconds LE |    *)
(*                 12 ECU id                                                 *)
(*  standard header 16 header type | 17 counter | 18 length BE (of the       *)
(*                  message without its storage header)                      *)
(*  then, as the header type announces: ECU id 4, session id 4,              *)
(*  timestamp BE 4, extended header 10 (message info, number of arguments,   *)
(*  application id, context id); then the payload                            *)
EXTENDS Integers, Sequences

DltMarker == <<68, 76, 84, 1>>
StorageLen == 16
StandardLen == 4
ExtendedLen == 10
DltMax == 65535 + StorageLen

U8(b, p) == b[p + 1]
BE16(b, p) == b[p + 1] * 256 + b[p + 2]
BE32(b, p) == <<BE16(b, p), BE16(b, p + 2)>>
LE32(b, p) == <<b[p + 4] * 256 + b[p + 3], b[p + 2] * 256 + b[p + 1]>>
Bytes(b, p, n) == SubSeq(b, p + 1, p + n)

ToBE16(n) == <<n \div 256, n % 256>>
ToBE32(v) == ToBE16(v[1]) \o ToBE16(v[2])
ToLE32(v) == <<v[2] % 256, v[2] \div 256, v[1] % 256, v[1] \div 256>>

Bit(x, n) == (x \div 2^n) % 2 = 1
B2N(x) == IF x THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Length of the complete message without a storage header at p, or 0.       *)
EntryLen(b, p) ==
  IF p + StandardLen <= Len(b)
  THEN LET n == BE16(b, p + 2) IN IF n >= StandardLen /\ p + n <= Len(b) THEN n ELSE 0
  ELSE 0

(* Length of the complete message with its storage header at p, or 0.        *)
DltLen(b, p) ==
  LET n == IF p + StorageLen <= Len(b) THEN EntryLen(b, p + StorageLen) ELSE 0
  IN  IF n > 0 THEN StorageLen + n ELSE 0

DltAt(b, p) == IF p + 4 <= Len(b) /\ Bytes(b, p, 4) = DltMarker THEN DltLen(b, p) ELSE 0

-----------------------------------------------------------------------------
(* Header type                                                               *)
Flags(h) == [ueh |-> Bit(h, 0), msbf |-> Bit(h, 1), weid |-> Bit(h, 2), wsid |-> Bit(h, 3), wtms |-> Bit(h, 4)]
FlagSeq(h) == <<Bit(h, 0), Bit(h, 1), Bit(h, 2), Bit(h, 3), Bit(h, 4)>>
Version(h) == h \div 32
MakeHTyp(flags, version) ==
  B2N(flags[1]) + 2 * B2N(flags[2]) + 4 * B2N(flags[3]) + 8 * B2N(flags[4]) + 16 * B2N(flags[5]) + 32 * version

(* Message info: bit 0 verbose, bits 1-3 type, bits 4-7 info of the type     *)
TypeInfos == <<
  <<"LogFatal", "LogError", "LogWarn", "LogInfo", "LogDebug", "LogVerbose">>,
  <<"TraceVariable", "TraceFunctionIn", "TraceFunctionOut", "TraceState", "TraceVfb">>,
  <<"NwIpc", "NwCan", "NwFlexray", "NwMost", "NwEthernet", "NwSomeip">>,
  <<"ControlRequest", "ControlResponse">> >>
TypeNames == UNION {{TypeInfos[t][i] : i \in 1..Len(TypeInfos[t])} : t \in 1..4}

Verbose(m) == Bit(m, 0)
TypeOf(m) ==
  LET t == (m \div 2) % 8
      i == m \div 16
  IN  IF t <= 3 /\ i >= 1 /\ i <= Len(TypeInfos[t + 1]) THEN <<TypeInfos[t + 1][i]>> ELSE <<>>
MakeInfo(verbose, name) ==
  LET t == CHOOSE t \in 1..4 : \E i \in 1..Len(TypeInfos[t]) : TypeInfos[t][i] = name
      i == CHOOSE i \in 1..Len(TypeInfos[t]) : TypeInfos[t][i] = name
  IN  B2N(verbose) + 2 * (t - 1) + 16 * i

-----------------------------------------------------------------------------
(* The fields of the message at p, without storage header. Nothing outside   *)
(* of its n bytes is used.                                                   *)
EntryFields(b, p, n) ==
  LET h == U8(b, p)
      f == Flags(h)
      tailLen == n - StandardLen
      t == p + StandardLen
      seidAt == IF f.weid THEN 4 ELSE 0
      tmspAt == seidAt + (IF f.wsid THEN 4 ELSE 0)
      extAt  == tmspAt + (IF f.wtms THEN 4 ELSE 0)
      payAt  == extAt + (IF f.ueh THEN ExtendedLen ELSE 0)
      e == t + extAt
  IN  [ hdr |-> Bytes(b, p, 4),
        flags |-> FlagSeq(h),
        version |-> Version(h),
        hlen |-> n,
        len |-> n,
        tail |-> Bytes(b, t, tailLen),
        ecu_id |-> IF f.weid /\ 4 <= tailLen THEN <<BE32(b, t)>> ELSE <<>>,
        timestamp |-> IF f.wtms /\ tmspAt + 4 <= tailLen THEN <<BE32(b, t + tmspAt)>> ELSE <<>>,
        ext |-> IF f.ueh /\ extAt + ExtendedLen <= tailLen
                THEN << [ bytes |-> Bytes(b, e, ExtendedLen),
                          verbose |-> Verbose(U8(b, e)),
                          type |-> TypeOf(U8(b, e)),
                          noar |-> U8(b, e + 1),
                          apid |-> Bytes(b, e + 2, 4),
                          ctid |-> Bytes(b, e + 6, 4) ] >>
                ELSE <<>>,
        payload |-> IF payAt <= tailLen THEN <<Bytes(b, t + payAt, tailLen - payAt)>> ELSE <<>> ]

(* The fields of the message at p, n bytes with its storage header.          *)
DltFields(b, p, n) ==
  [ len |-> n,
    pattern |-> Bytes(b, p, 4),
    secs |-> LE32(b, p + 4),
    usecs |-> LE32(b, p + 8),
    ecu |-> Bytes(b, p + 12, 4),
    dlt |-> EntryFields(b, p + StorageLen, n - StorageLen) ]

-----------------------------------------------------------------------------
(* Building messages                                                         *)
StorageHeader(pattern, secs, usecs, ecu) == pattern \o ToLE32(secs) \o ToLE32(usecs) \o ecu
StandardHeader(htyp, counter, length) == <<htyp, counter>> \o ToBE16(length)
ExtendedHeader(info, noar, apid, ctid) == <<info, noar>> \o apid \o ctid
=============================================================================
