------------------------------ MODULE IterLife ------------------------------
(* What every iterator over a buffer of n bytes does, whatever the bytes     *)
(* are: it yields finitely many items, further and further in its direction, *)
(* and then it has ended for good.                                           *)
EXTENDS Integers, Sequences

VARIABLES items,     \* <<position, length>>, as far as they are yielded
          over,      \* it has said that there are no more
          asked      \* how often it was asked since then
lifeVars == <<items, over, asked>>
LifeInit == items = <<>> /\ over = FALSE /\ asked = 0

Beyond(dir, it) ==
  IF items = <<>> THEN TRUE
  ELSE IF dir = "up" THEN it[1] > items[Len(items)][1] ELSE it[1] < items[Len(items)][1]
\* an item that lies in the buffer
Within(n, it) == 0 <= it[1] /\ it[1] < n /\ it[2] > 0 /\ it[1] + it[2] <= n

Yield(n, dir, it) == ~over /\ Within(n, it) /\ Beyond(dir, it) /\ items' = Append(items, it) /\ UNCHANGED <<over, asked>>
Cease == ~over /\ over' = TRUE /\ UNCHANGED <<items, asked>>
AskAgain == over /\ asked < 3 /\ asked' = asked + 1 /\ UNCHANGED <<items, over>>

Bounded(n) == Len(items) <= n
Distinct == \A i, j \in 1..Len(items) : items[i][1] = items[j][1] => i = j
StaysOver == [][over => over' /\ items' = items]_lifeVars
=============================================================================
