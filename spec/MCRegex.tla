------------------------------- MODULE MCRegex ------------------------------
(* The efficient search for a match agrees with the definition by all        *)
(* matches in their order, for all small expressions and strings.            *)
EXTENDS Regex, TLC
CONSTANTS Alphabet, MaxN, Depth
VARIABLES b, r, done
vars == <<b, r, done>>

Leaves == {<<"of", <<1>>>>, <<"not", <<1>>>>, <<"any">>, <<"set", {2}>>, <<"cat", <<"of", <<1>>>>, <<"of", <<2>>>>>>}
RECURSIVE Empty(_)
Empty(x) == CASE x[1] \in {"eps", "opt", "star", "lazy"} -> TRUE
              [] x[1] = "cat" -> Empty(x[2]) /\ Empty(x[3])
              [] x[1] = "alt" -> Empty(x[2]) \/ Empty(x[3])
              [] x[1] = "grp" -> Empty(x[2])
              [] OTHER -> FALSE
RECURSIVE Has(_)
Has(x) == CASE x[1] = "grp" -> TRUE
            [] x[1] \in {"cat", "alt"} -> Has(x[2]) \/ Has(x[3])
            [] x[1] \in {"opt", "star", "lazy"} -> Has(x[2])
            [] OTHER -> FALSE
Over(E, F) ==
  E \cup {<<"cat", x, y>> : <<x, y>> \in {p \in E \X F : ~(Has(p[1]) /\ Has(p[2]))}}
    \cup {<<"alt", x, y>> : <<x, y>> \in {p \in E \X F : ~(Has(p[1]) /\ Has(p[2]))}}
    \cup {<<"opt", x>> : x \in E} \cup {<<"alt", <<"eps">>, x>> : x \in E}
    \cup {<<k, x>> : k \in {"star", "lazy"}, x \in {x \in E : ~Empty(x)}}
    \cup {<<"grp", x>> : x \in {x \in E : ~Has(x)}}
Exprs == LET one == Over(Leaves, Leaves) IN IF Depth = 1 THEN one ELSE Over(one, Leaves)

Init == b \in UNION {[1..n -> Alphabet] : n \in 0..MaxN} /\ r \in Exprs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<b, r>>
Spec == Init /\ [][Next]_vars

\* all matches with the same end as a preferred one left out
Firsts(m) == PutAll(<<>>, m, 1)
InvEnds == done => \A i \in 0..Len(b) : Ends(b, r, i, Len(b), <<>>) = Firsts(Matches(b, r, i, Len(b), <<>>))
InvFind == done => \A lo \in 0..Len(b) :
  LET f == Find(b, r, lo, Len(b), Len(b))
      can == {s \in lo..Len(b) : Matches(b, r, s, Len(b), <<>>) # <<>>}
  IN  IF can = {} THEN f = NoMatch
      ELSE LET s == CHOOSE s \in can : \A q \in can : s <= q
               m == Matches(b, r, s, Len(b), <<>>)[1]
           IN  f = <<s, m[1], m[2]>>
=============================================================================
