------------------------------- MODULE MCPull -------------------------------
(* All chains of a library of stages, on all short sequences.                *)
EXTENDS Large, Json
CONSTANTS Depth, SeqLen, Vals

LibI == { <<<<"filter", "odd">>, "I">>, <<<<"map", "inc">>, "I">>, <<<<"map", "to3">>, "P">>, <<<<"groupby", "ge">>, "P">>,
          <<<<"groupbyfn", "sumodd">>, "P">>, <<<<"merge", "same", "rev">>, "I">>, <<<<"merge", "parity", "w">>, "I">>,
          <<<<"hold", 2>>, "I">>, <<<<"hold", 0>>, "I">>, <<<<"pass", 1>>, "I">>, <<<<"gaps">>, "I">> }
LibP == { <<<<"map", "w">>, "I">>, <<<<"groupby", "gt">>, "Q">>, <<<<"groupbyfn", "near">>, "Q">>, <<<<"merge", "union", "iv">>, "P">>,
          <<<<"hold", 3>>, "P">>, <<<<"gaps">>, "P">> }
LibQ == { <<<<"map", "fst">>, "P">>, <<<<"filter", "ne0">>, "Q">>, <<<<"merge", "same", "w">>, "Q">> }
Lib(k) == CASE k = "I" -> LibI [] k = "P" -> LibP [] k = "Q" -> LibQ

RECURSIVE Chains(_)
Chains(n) == IF n = 0 THEN {<<<<>>, "I">>}
             ELSE UNION {{<<Append(c[1], g[1]), g[2]>> : g \in Lib(c[2])} : c \in Chains(n - 1)}

Seqs == UNION {[1..n -> {<<v>> : v \in Vals}] : n \in 0..SeqLen}
\* groupby and groupbyfn are the same stage, called in two ways
Same(g) == IF g[1] = "groupbyfn" THEN <<"groupby", g[2]>> ELSE g
Stages(c) == [i \in 1..Len(c) |-> Same(c[i])]

VARIABLES chain, in
vars == <<chain, in, pm, got, over, pos, mach, at, result>>

Init == /\ chain \in {c[1] : c \in Chains(Depth)} /\ in \in Seqs
        /\ PullInit(Stages(chain)) /\ pos = 0 /\ mach = 0 /\ at = 0 /\ result = 0
Next == PullNext(Stages(chain), in) /\ UNCHANGED <<chain, in, pushVars>>
Spec == Init /\ [][Next]_vars

InvSame == SameAsPush(Stages(chain), in)
InvEnded == StaysEnded(Stages(chain), in)
\* the definition for long sequences gives the same
InvLarge == over => LET x == LCompose(Stages(chain), 1, Stream(in)) IN x.q = got /\ x.e = pm.taken
InvLazy == Lazy(Stages(chain), in)
\* a map of keys to results, as in a push-based split
SplitPipe == [stages |-> <<<<"groupby", "ge">>>>, end |-> <<"count">>]
SplitResult == Denote([stages |-> <<>>, end |-> <<"split", "mod2", SplitPipe>>], Values(got))

Case == over => PrintT("@@" \o ToJson([p |-> chain, s |-> in, out |-> got, taken |-> pm.taken, split |-> SplitResult]))
=============================================================================
