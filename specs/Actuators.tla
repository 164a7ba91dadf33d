----------------------------- MODULE Actuators ------------------------------
(* Which actuators control may use, and what a step does to each of them.    *)
(* Two mirrors of NA actuators.  The strength of actuator a of mirror d is    *)
(* 10^-cls (cls 9: no effect at all), so "relative strength at least          *)
(* 10^logGmin" is a comparison of classes: keep when cls - min cls <= thr    *)
(* (thr -1: only the strongest, a threshold of exactly one).                  *)
(* ties[d] is a sequence of pairs <<leader, follower>>.                       *)
EXTENDS Integers, Sequences, FiniteSets
NA == 9
Act == 1..NA
Mod(x, n) == x % n
Cls(t, d, a) == CASE t = 0 -> 0
                  [] t = 1 -> IF Mod(a*7 + d*4, 5) = 0 THEN 9 ELSE d - 1 + Mod(a*a + d, 3)
                  [] t = 2 -> IF a = 5 THEN 0 ELSE IF d = 2 THEN 2 ELSE Mod(a, 2)
                  [] t = 3 -> IF a <= 3*d THEN 9 ELSE Mod(a + d, 4)
                  [] OTHER -> IF Mod(a + d, 2) = 0 THEN 3 ELSE 1
MinCls(t, d) == CHOOSE c \in 0..9 : (\E a \in Act : Cls(t, d, a) = c) /\ \A a \in Act : Cls(t, d, a) >= c
Strong(t, d, thr) == {a \in Act : Cls(t, d, a) # 9 /\ Cls(t, d, a) - MinCls(t, d) <= (IF thr < 0 THEN 0 ELSE thr)}
TiedSet(ties) == UNION {{ties[i][1], ties[i][2]} : i \in 1..Len(ties)}
Followers(ties) == {ties[i][2] : i \in 1..Len(ties)}
LeaderOf(ties, a) == LET i == CHOOSE i \in 1..Len(ties) : ties[i][2] = a IN ties[i][1]
FollowersOf(ties, a) == {ties[i][2] : i \in {j \in 1..Len(ties) : ties[j][1] = a}}
Usable(t, d, thr, ties) == Strong(t, d, thr) \cup TiedSet(ties)
(* Mirrors named by the number of a schedule row. *)
Dms(n) == CASE n = 12 -> {1, 2} [] n = 1 -> {1} [] n = 2 -> {2}
(* A selection is made anew at the first iteration and whenever the mirrors   *)
(* change together with a relinearisation.                                    *)
Changed(rows, i) == i = 1 \/ Dms(rows[i].dms) # Dms(rows[i-1].dms)
Relin(rows, i) == i = 1 \/ rows[i].relin = 1
Anew(rows, i) == Changed(rows, i) /\ Relin(rows, i)
LastRelin(rows, i) == CHOOSE k \in 1..i : Relin(rows, k) /\ \A j \in (k+1)..i : ~Relin(rows, j)
(* A mirror can only be brought in without relinearising if the response      *)
(* matrix in hand has it.                                                     *)
Followable(rows) == \A i \in 1..Len(rows) : Dms(rows[i].dms) \subseteq Dms(rows[LastRelin(rows, i)].dms)
(* Used actuators during iteration i of mirror d: the latest fresh selection  *)
(* of that mirror.                                                            *)
UsedAt(rows, i, d, t, thr, ties) == IF \E k \in 1..i : Anew(rows, k) /\ d \in Dms(rows[k].dms)
                                    THEN Usable(t, d, thr, ties[d]) ELSE Act
(* The field to cancel: what command of each actuator it stands for. *)
Eq(d, a, i) == 2*(Mod(a*3 + d*5 + i*4, 7) - 3)
(* Exact step of a used actuator.  The response of a leader is that of its    *)
(* whole tied group (all of one class or without effect), whose pixels see    *)
(* the mean of the group; followers have no response of their own.            *)
GroupOf(t, d, ties, a) == {b \in {a} \cup FollowersOf(ties, a) : Cls(t, d, b) # 9}
SumE(S, d, i) == LET f[T \in SUBSET Act] == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN Eq(d, x, i) + f[T \ {x}] IN f[S]
Step(t, d, ties, a, i) == IF a \in Followers(ties) \/ GroupOf(t, d, ties, a) = {} THEN 0
                          ELSE -(SumE(GroupOf(t, d, ties, a), d, i) \div Cardinality(GroupOf(t, d, ties, a)))
(* Commands after the step, with followers put to their leader. *)
Moved(V, used, rows, i, t, ties, w) ==
  [d \in {1, 2} |-> LET m == [a \in Act |-> IF d \in Dms(rows[i].dms) /\ a \in used[d]
                                            THEN V[d][a] + w[d]*Step(t, d, ties[d], a, i) ELSE V[d][a]]
                    IN IF d \in Dms(rows[i].dms)
                       THEN [a \in Act |-> IF a \in Followers(ties[d]) THEN m[LeaderOf(ties[d], a)] ELSE m[a]] ELSE m]
V0(ties) == [d \in {1, 2} |-> LET f == [a \in Act |-> Mod(a*5 + d*3, 11) - 4]
                              IN [a \in Act |-> IF a \in Followers(ties[d]) THEN f[LeaderOf(ties[d], a)] ELSE f[a]]]
(* Tied groups of one class (members without effect aside) with sizes 1 or 2  *)
(* keep the steps whole.                                                      *)
WholeTies(t, ties) == \A d \in {1, 2} : \A a \in Act : LET g == GroupOf(t, d, ties[d], a) IN
   /\ Cardinality(g) <= 2
   /\ Cardinality({Cls(t, d, b) : b \in g}) <= 1
=============================================================================
