----------------------------- MODULE DmCommand ------------------------------
(* Admissible commands of one mirror.  Actuators are 1..n; commands are      *)
(* relative to a bias; pin[a] is the fixed command of a pinned actuator or   *)
(* Free.  Order of rules: dead, limits and pins, ties.                       *)
EXTENDS Integers, Sequences, FiniteSets
Free == 99999
Live(V, dead) == [a \in DOMAIN V |-> IF a \in dead THEN 0 ELSE V[a]]
\* actuators out of range become pinned at the limit, unless pinned already
NewPin(V, dead, pin, lo, hi) ==
   LET L == Live(V, dead)
   IN [a \in DOMAIN V |-> IF pin[a] # Free THEN pin[a]
                          ELSE IF L[a] < lo[a] THEN lo[a]
                          ELSE IF L[a] > hi[a] THEN hi[a] ELSE Free]
Pinned(V, dead, pin, lo, hi) ==
   LET L == Live(V, dead)
       P == NewPin(V, dead, pin, lo, hi)
   IN [a \in DOMAIN V |-> IF P[a] # Free THEN P[a] ELSE L[a]]
\* ties: sequence of <<leader, follower>>, no actuator both leads and follows
Tie(V, ties) == [a \in DOMAIN V |->
   IF \E i \in 1..Len(ties) : ties[i][2] = a
   THEN V[ties[CHOOSE i \in 1..Len(ties) : ties[i][2] = a][1]] ELSE V[a]]
Enforced(V, dead, pin, ties, lo, hi) == Tie(Pinned(V, dead, pin, lo, hi), ties)

\* steps of a quantised command: h/q for each rule (h, q integers, q > 0)
Floor(h, q) == IF h >= 0 THEN h \div q ELSE -((-h + q - 1) \div q)
Ceil(h, q) == -Floor(-h, q)
Fix(h, q) == IF h >= 0 THEN Floor(h, q) ELSE Ceil(h, q)
\* nearest; a tie goes to the even multiple
Round(h, q) == LET f == Floor(h, q)
                   r == h - f*q
               IN IF 2*r < q THEN f ELSE IF 2*r > q THEN f+1
                  ELSE IF f % 2 = 0 THEN f ELSE f+1
Quant(m, h, q) == CASE m = "round" -> Round(h, q) [] m = "floor" -> Floor(h, q)
                    [] m = "ceil" -> Ceil(h, q) [] m = "fix" -> Fix(h, q)
=============================================================================
