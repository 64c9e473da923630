----------------------------- MODULE MCIterLife -----------------------------
(* Every iterator over every buffer of up to MaxN bytes. The rules of        *)
(* IterLife are enough to bound the number of items, and to end.             *)
EXTENDS IterLife
CONSTANTS MaxN
VARIABLES n, dir
vars == <<n, dir, items, over, asked>>
Init == n \in 0..MaxN /\ dir \in {"up", "down"} /\ LifeInit
Next == /\ \/ \E p \in 0..(n - 1) : \E l \in 1..(n - p) : Yield(n, dir, <<p, l>>)
           \/ Cease \/ AskAgain
        /\ UNCHANGED <<n, dir>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InvBounded == Bounded(n)
InvDistinct == Distinct
PropStaysOver == [][over => over' /\ items' = items]_vars
Terminates == <>(over /\ asked = 3)
=============================================================================
