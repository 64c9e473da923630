----------------------------- MODULE DdMessages -----------------------------
(* The messages that dd_dlt makes of its input.                              *)
EXTENDS DltFormat

Pair(n) == <<n \div 65536, n % 65536>>
\* 100 * n modulo 2^32
Ticks(n) == LET lo == 100 * (n % 65536) IN <<(100 * (n \div 65536) + lo \div 65536) % 65536, lo % 65536>>
\* the same for message 100 * s + r, which may be beyond 2^31
TicksAt(s, r) == LET lo == 10000 * (s % 65536) + 100 * r IN <<(10000 * (s \div 65536) + lo \div 65536) % 65536, lo % 65536>>
MinSize == 1
MaxSize == 65517                      \* 65535 without standard header, timestamp and extended header
Carried(size) == size \in MinSize..MaxSize

\* extended header and timestamp, version 1
HeaderAt(s, r, size, ecu, app) ==      \* of message 100 * s + r
  StorageHeader(DltMarker, Pair(s), Pair(r * 10000), ecu)
    \o StandardHeader(MakeHTyp(<<TRUE, FALSE, FALSE, FALSE, TRUE>>, 1), ((s % 256) * 100 + r) % 256, 18 + size)
    \o ToBE32(TicksAt(s, r)) \o ExtendedHeader(MakeInfo(TRUE, "LogInfo"), 0, app, app)
HeaderOf(n, size, ecu, app) == HeaderAt(n \div 100, n % 100, size, ecu, app)
HeaderLen == 34
MessageOf(n, size, ecu, app, payload) == HeaderOf(n, size, ecu, app) \o payload

RECURSIVE Messages(_, _, _, _, _)
Messages(in, size, ecu, app, n) ==      \* the first n messages
  IF n = 0 THEN <<>>
  ELSE Messages(in, size, ecu, app, n - 1) \o MessageOf(n - 1, size, ecu, app, SubSeq(in, (n - 1) * size + 1, n * size))
\* number of bytes of output for k bytes of input
OutLen(k, size) == (k \div size) * (HeaderLen + size)
=============================================================================
