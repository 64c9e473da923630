------------------------------ MODULE Invoke -------------------------------
(* What becomes of an invocation of the command line tools. An invocation is *)
(* described by what its arguments are good for; a tool looks at them in any *)
(* order, and only if all of them are usable it produces its result, line by *)
(* line or message by message.                                               *)
EXTENDS Naturals, Sequences, FiniteSets

Tools     == {"ripdlt", "dd_dlt"}
\* classes of arguments: the only usable one of each comes first
Methods   == {"known", "unknown"}
Reports   == {"known", "unknown"}
Files     == {"readable", "missing", "directory", "broken"}
Sizes     == {"carried", "uncarried", "nonumber"}
Ids       == {"four", "other"}
Inputs    == {"chunks", "short"}

\* what the arguments of an invocation have to be for a result
Needs(i) == IF i.tool = "ripdlt" THEN [method |-> i.method = "known", report |-> i.report = "known", file |-> i.file = "readable"]
            ELSE [size |-> i.size = "carried", ecu |-> i.ecu = "four" \/ i.input = "short", app |-> i.app = "four" \/ i.input = "short"]
Usable(i) == \A n \in DOMAIN Needs(i) : Needs(i)[n]
Invocations ==
  LET R == [tool: {"ripdlt"}, args: {"all", "few"}, method: Methods, report: Reports, file: Files]
      D == [tool: {"dd_dlt"}, args: {"all", "few"}, size: Sizes, ecu: Ids, app: Ids, input: Inputs]
  IN R \cup D

VARIABLES inv,        \* the invocation
          seen,       \* needs that were looked at
          items,      \* lines or messages of the result that were written
          usage,      \* the usage was shown
          exit        \* "no", "success", "failure"
vars == <<inv, seen, items, usage, exit>>
CONSTANT Total        \* items of a complete result
\* input without a complete chunk gives no message
Wanted == IF inv.tool = "dd_dlt" /\ inv.input = "short" THEN 0 ELSE Total

Init == inv \in Invocations /\ seen = {} /\ items = 0 /\ usage = FALSE /\ exit = "no"
Show == /\ exit = "no" /\ inv.args = "few" /\ ~usage
        /\ usage' = TRUE /\ UNCHANGED <<inv, seen, items, exit>>
\* how an explanation is rated is left to the tool
Explained == exit = "no" /\ usage /\ exit' \in {"success", "failure"} /\ UNCHANGED <<inv, seen, items, usage>>
Look == /\ exit = "no" /\ inv.args = "all"
        /\ \E n \in DOMAIN Needs(inv) \ seen :
              IF Needs(inv)[n] THEN seen' = seen \cup {n} /\ UNCHANGED exit
              ELSE exit' = "failure" /\ UNCHANGED seen
        /\ UNCHANGED <<inv, items, usage>>
Ready == exit = "no" /\ inv.args = "all" /\ seen = DOMAIN Needs(inv)
Write == /\ Ready /\ items < Wanted
         /\ items' = items + 1 /\ UNCHANGED <<inv, seen, usage, exit>>
\* the output cannot be written
Lost  == /\ Ready /\ items < Wanted /\ exit' = "failure" /\ UNCHANGED <<inv, seen, items, usage>>
Done  == /\ Ready /\ items = Wanted /\ exit' = "success" /\ UNCHANGED <<inv, seen, items, usage>>
Next == Show \/ Explained \/ Look \/ Write \/ Lost \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* an unusable invocation never gives any part of a result, and never succeeds
InvNothing  == inv.args = "few" \/ ~Usable(inv) => items = 0
InvFails    == inv.args = "all" /\ ~Usable(inv) => exit # "success"
\* success means that the result is complete, failure that something is wrong
InvComplete == exit = "success" /\ inv.args = "all" => items = Wanted
InvUsage    == (usage => inv.args = "few") /\ (inv.args = "few" /\ exit # "no" => usage)
Ends        == <>(exit # "no")
=============================================================================
