------------------------------ MODULE TraceGrep -----------------------------
(* Checks recorded pattern searches: buffer b, list of patterns ("Small" or  *)
(* "Text") and number of the pattern p, or the expression r of any pattern,  *)
(* offset f, search k, and what was found.                                   *)
EXTENDS Grep, Kinds, DltFormat, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, ok
vars == <<t, ok, pos, out, ended, s, at, far, hits, finished>>
b == Traces[t].b
R == CASE Traces[t].l = "Small" -> Small[Traces[t].p].r [] Traces[t].l = "Text" -> Text[Traces[t].p].r [] OTHER -> Traces[t].r
\* first the buffer is read sequentially, then each message is searched
Init == t \in 1..Len(Traces) /\ ok = FALSE /\ ScanInit(0) /\ GrepInit(0)
Read == ScanNext(b) /\ UNCHANGED <<t, ok, grepVars>>
\* s counts the messages
Search == /\ ended /\ s < Len(out)
        /\ LET one == <<out[s + 1]>>
               h == IF Traces[t].k = "grep" THEN GrepOf(b, one, R, Traces[t].f, 1) ELSE CaptureOf(b, one, R, Traces[t].f, 1)
           IN  /\ h # <<>> => Len(hits) < Len(Traces[t].o) /\ Traces[t].o[Len(hits) + 1] = h[1]
               /\ hits' = hits \o h
        /\ s' = s + 1 /\ UNCHANGED <<t, ok, at, far, finished, scanVars>>
Stop == /\ ended /\ s = Len(out) /\ ~ok /\ Len(hits) = Len(Traces[t].o)
        /\ ok' = TRUE /\ UNCHANGED <<t, grepVars, scanVars>>
\* the property is about buffers in which no marker starts inside a message
Outside == /\ ended /\ s = 0 /\ ~Unnested(b) /\ ~ok
           /\ PrintT("@@" \o ToJson([outside |-> t]))
           /\ ok' = TRUE /\ UNCHANGED <<t, grepVars, scanVars>>
Next == Read \/ (Unnested(b) /\ (Search \/ Stop)) \/ Outside
Spec == Init /\ [][Next]_vars
Accepted == ok => PrintT("@@accept " \o ToString(t))
=============================================================================
