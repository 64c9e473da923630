----------------------------- MODULE TraceLarge -----------------------------
(* Checks recorded results of pipelines on long sequences: <<p, s, r>> of a  *)
(* push-based pipeline, or <<c, s, o, n>> of a chain of stages on an         *)
(* iterator.                                                                 *)
EXTENDS Large, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, ok
vars == <<t, ok, pm, got, over, pos, mach, at, result>>
Same(g) == IF g[1] = "groupbyfn" THEN <<"groupby", g[2]>> ELSE g
C(x) == [i \in 1..Len(x) |-> Same(x[i])]
Agrees(x) ==
  IF "p" \in DOMAIN x THEN LDenote(x.p, x.s) = x.r
  ELSE LET y == LCompose(C(x.c), 1, Stream(x.s)) IN y.q = x.o /\ y.e = x.n
Init == t \in 1..Len(Traces) /\ ok = 0 /\ pm = 0 /\ got = 0 /\ over = 0 /\ pos = 0 /\ mach = 0 /\ at = 0 /\ result = 0
Next == ok = 0 /\ Agrees(Traces[t]) /\ ok' = 1 /\ UNCHANGED <<t, pullVars, pushVars>>
Spec == Init /\ [][Next]_vars
Accepted == ok = 1 => PrintT("@@accept " \o ToString(t))
=============================================================================
