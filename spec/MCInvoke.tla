------------------------------ MODULE MCInvoke -----------------------------
(* All invocations and how they may end; every end is a case for the tools.  *)
EXTENDS Invoke, TLC, Json
Case == exit # "no" => PrintT("@@" \o ToJson([i |-> inv, items |-> items, usage |-> usage, exit |-> exit]))
=============================================================================
