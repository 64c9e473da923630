----------------------------- MODULE MCHeaders ------------------------------
(* Building headers and message types, and reading them back.                *)
EXTENDS DltFormat, TLC, Json
CONSTANTS Full

VARIABLES c, phase
vars == <<c, phase>>

FlagSets == [1..5 -> BOOLEAN]
Edge32 == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<32767, 65535>>, <<32768, 0>>, <<65535, 65535>>, <<4660, 22136>>, <<257, 65280>>}
Edge16 == {0, 1, 3, 4, 255, 256, 258, 32767, 32768, 65534, 65535, 4660}
Ids == {<<0, 0, 0, 0>>, <<65, 66, 67, 68>>, <<255, 254, 128, 1>>, <<68, 76, 84, 1>>}
Cases ==
  [op : {"mkhtyp"}, flags : FlagSets, version : 0..7]
  \cup [op : {"rdhtyp"}, byte : 0..255]
  \cup [op : {"mkmsg"}, verbose : BOOLEAN, type : TypeNames]
  \cup [op : {"rdmsg"}, byte : 0..255]
  \cup [op : {"mkstd"}, flags : {[i \in 1..5 |-> i = k] : k \in 0..5}, version : {1, 6}, counter : {0, 1, 128, 255}, length : Edge16]
  \cup [op : {"mksto"}, pattern : {DltMarker, <<1, 2, 3, 4>>}, secs : Edge32, usecs : Edge32, ecu : Ids]
  \cup [op : {"mkext"}, verbose : BOOLEAN, type : TypeNames, noar : {0, 1, 255}, apid : Ids, ctid : Ids]

Htyp(byte) == [byte |-> byte, version |-> Version(byte), flags |-> FlagSeq(byte)]
Msg(byte) == [byte |-> byte, verbose |-> Verbose(byte), iverbose |-> Verbose(byte), type |-> TypeOf(byte), itype |-> TypeOf(byte)]

Expected(x) ==
  CASE x.op = "mkhtyp" -> Htyp(MakeHTyp(x.flags, x.version))
    [] x.op = "rdhtyp" -> Htyp(x.byte)
    [] x.op = "mkmsg"  -> Msg(MakeInfo(x.verbose, x.type))
    [] x.op = "rdmsg"  -> Msg(x.byte)
    [] x.op = "mkstd"  -> [bytes |-> StandardHeader(MakeHTyp(x.flags, x.version), x.counter, x.length), length |-> x.length]
    [] x.op = "mksto"  -> [bytes |-> StorageHeader(x.pattern, x.secs, x.usecs, x.ecu)]
    [] x.op = "mkext"  -> [bytes |-> ExtendedHeader(MakeInfo(x.verbose, x.type), x.noar, x.apid, x.ctid)]

Init == c \in Cases /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

\* what is built is read back
InvRoundtrip == phase = 1 =>
  LET e == Expected(c) IN
  /\ c.op = "mkhtyp" => e.flags = c.flags /\ e.version = c.version
  /\ c.op = "mkmsg" => e.type = <<c.type>> /\ e.verbose = c.verbose
  /\ c.op = "mksto" => LE32(e.bytes, 4) = c.secs /\ LE32(e.bytes, 8) = c.usecs /\ Len(e.bytes) = StorageLen
  /\ c.op = "mkstd" => BE16(e.bytes, 2) = c.length /\ Len(e.bytes) = StandardLen
  /\ c.op = "mkext" => TypeOf(e.bytes[1]) = <<c.type>> /\ Len(e.bytes) = ExtendedLen
\* different types and flags have different bytes; exactly 38 bytes are message types
InvInjective == phase = 1 /\ c.op = "mkmsg" =>
  \A v \in BOOLEAN : \A t \in TypeNames : MakeInfo(v, t) = MakeInfo(c.verbose, c.type) => v = c.verbose /\ t = c.type

Case == phase = 1 => PrintT("@@" \o ToJson([c |-> c, e |-> Expected(c)]))
=============================================================================
