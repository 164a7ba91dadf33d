----------------------------- MODULE ModesModel -----------------------------
(* Enumerates configurations of control modes and checks what the list must  *)
(* satisfy whatever the configuration.                                       *)
EXTENDS Modes, TLC, Json
CONSTANTS MaxS, Zs, MaxStar
VARIABLES ns, perfect, zs, zero, nstar, star, list
vars == <<ns, perfect, zs, zero, nstar, star, list>>

Rng(s) == {s[i] : i \in 1..Len(s)}
Orders == UNION {{q \in [1..n -> Zs] : \A i, j \in 1..n : i # j => q[i] # q[j]} : n \in 1..Cardinality(Zs)}
Init == /\ ns \in 1..MaxS /\ perfect \in BOOLEAN
        /\ zs \in {q \in Orders : 1 \in Rng(q)}
        /\ zero \in SUBSET Rng(zs)
        /\ nstar \in 1..MaxStar /\ star = 0 /\ list = <<>>
One == StarModes(ns, perfect, zs, zero, 0)
Next == \/ /\ star < nstar /\ star' = star + 1
           /\ list' = list \o [i \in 1..Len(One) |-> One[i] \o <<star>>]
           /\ UNCHANGED <<ns, perfect, zs, zero, nstar>>
        \/ star = nstar /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Done == star = nstar
SortZ(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y
                                                 IN <<m>> \o F(T \ {m})
            IN F(S)
D == 5040
NoRepeats == \A i, j \in 1..Len(list) : i # j => list[i] # list[j]
Complete == Done => /\ \A si \in 0..(ns-1), s \in 0..(nstar-1) :
                          <<si, 1, s>> \in Rng(list)
                    /\ \A i \in 1..Len(list) : list[i][2] \in (Rng(zs) \ zero) \cup {1}
                    /\ \A z \in Rng(zs) \ (zero \cup {1}), s \in 0..(nstar-1) :
                          {m[1] : m \in {x \in Rng(list) : x[2] = z /\ x[3] = s}}
                            = {0, ns \div 2, ns-1}
RECURSIVE SW(_, _)
SW(z, k) == IF k = 0 THEN 0 ELSE Weight(ns, perfect, zero, z, k-1, D*ColSum(ns, perfect, z)) + SW(z, k-1)
ColumnsSumToOne == Done => \A z \in Rng(zs) : SW(z, ns) = IF Dropped(z, zero) THEN 0 ELSE D*ColSum(ns, perfect, z)
\* the weight of a mode depends on what the mode is, not where it is listed
Emit == Done => PrintT("@@SCN " \o ToJson([ns |-> ns, perfect |-> perfect, zs |-> zs,
            zero |-> SortZ(zero), nstar |-> nstar]))
=============================================================================
