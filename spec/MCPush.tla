------------------------------- MODULE MCPush -------------------------------
(* All pipelines of a library of stages, on all short sequences.             *)
EXTENDS Large, Json
CONSTANTS Depth,      \* number of stages
          SeqLen,     \* length of the sequences
          Vals,       \* the numbers in them
          Part        \* which ends

\* stages with the kind of values they take and give: "I" numbers, "P" pairs of numbers, "Q" pairs of pairs
LibI == { <<<<"filter", "odd">>, "I">>, <<<<"filter", "ne0">>, "I">>, <<<<"map", "inc">>, "I">>, <<<<"map", "dup">>, "P">>,
          <<<<"map", "to3">>, "P">>, <<<<"groupby", "ge">>, "P">>, <<<<"groupby", "succ">>, "P">>, <<<<"groupby", "sumodd">>, "P">>,
          <<<<"groupby", "pos">>, "P">>, <<<<"merge", "same", "rev">>, "I">>, <<<<"merge", "parity", "w">>, "I">> }
LibP == { <<<<"filter", "lt3">>, "P">>, <<<<"map", "w">>, "I">>, <<<<"map", "snd">>, "I">>, <<<<"groupby", "gt">>, "Q">>,
          <<<<"groupby", "near">>, "Q">>, <<<<"merge", "union", "iv">>, "P">>, <<<<"merge", "touch", "iv">>, "P">> }
LibQ == { <<<<"map", "fst">>, "P">>, <<<<"filter", "ne0">>, "Q">>, <<<<"merge", "same", "w">>, "Q">> }
Lib(k) == CASE k = "I" -> LibI [] k = "P" -> LibP [] k = "Q" -> LibQ

\* chains <<stages, kind>> of exactly n stages
RECURSIVE Chains(_)
Chains(n) == IF n = 0 THEN {<<<<>>, "I">>}
             ELSE UNION {{<<Append(c[1], g[1]), g[2]>> : g \in Lib(c[2])} : c \in Chains(n - 1)}

Pipe(st, e) == [stages |-> st, end |-> e]
Sub1 == Pipe(<<<<"map", "w">>, <<"groupby", "ge">>>>, <<"collect">>)
Sub2 == Pipe(<<<<"merge", "same", "w">>>>, <<"fold">>)
Sub3 == Pipe(<<<<"map", "w">>, <<"filter", "odd">>>>, <<"sum">>)

Simple == {<<"count">>, <<"collect">>, <<"fold">>}
Nested == {<<"fork", Sub1, Sub3>>, <<"split", "mod2", Sub1>>, <<"split", "w", Sub2>>,
           <<"split", "mod2", Pipe(<<>>, <<"fork", Sub2, Pipe(<<>>, <<"split", "w", Pipe(<<>>, <<"count">>)>>)>>)>>,
           <<"fork", Pipe(<<>>, <<"split", "rev", Pipe(<<>>, <<"fold">>)>>), Pipe(<<>>, <<"count">>)>>}
EndsFor(c) == CASE Part = "simple" -> {e \in Simple : c[1] # <<>> \/ e # <<"collect">>} \cup (IF c[2] = "I" THEN {<<"sum">>} ELSE {})
             [] Part = "nested" -> Nested
             [] Part = "one"    -> {<<"fold">>, <<"collect">>}

Pipes == UNION {{Pipe(c[1], e) : e \in EndsFor(c)} : c \in Chains(Depth)}
Seqs == UNION {[1..n -> {<<v>> : v \in Vals}] : n \in 0..SeqLen}

VARIABLES pipe, in
vars == <<pipe, in, pos, mach, at, result, pm, got, over>>

Init == pipe \in Pipes /\ in \in Seqs /\ PushInit(pipe) /\ pm = 0 /\ got = 0 /\ over = 0
Next == PushNext(pipe, in) /\ UNCHANGED <<pipe, in, pullVars>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InvComposition == Compositional(pipe, in)
\* the definition for long sequences gives the same
InvLarge == result # <<>> => LDenote(pipe, in) = result[1]
InvNothingLost == NothingLost(pipe, in)
Terminates == <>(result # <<>>)

Case == result # <<>> => PrintT("@@" \o ToJson([p |-> pipe, s |-> in, r |-> result[1]]))
=============================================================================
