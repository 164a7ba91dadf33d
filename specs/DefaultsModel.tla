---------------------------- MODULE DefaultsModel ----------------------------
(* Settings that depend on one another are filled in one at a time, in the   *)
(* order of the code; preparing again finds everything set.                  *)
EXTENDS Defaults, Json
CONSTANTS Vals, Sim
VARIABLES user, val, pc, round
vars == <<user, val, pc, round>>
Names == <<"Vmax", "lat", "diag", "bias", "flat">>
Init == /\ user \in [1..5 -> Vals \cup {0}] /\ val = user /\ pc = 1 /\ round = 1
Dflt(i) == CASE i = 1 -> VmaxOf(0, Sim) [] i = 2 -> val[1] [] i = 3 -> val[1] [] i = 4 -> BiasOf(0, val[1]) [] i = 5 -> val[4]
Fill == /\ pc <= 5 /\ val' = [val EXCEPT ![pc] = IF @ = 0 THEN Dflt(pc) ELSE @] /\ pc' = pc + 1 /\ UNCHANGED <<user, round>>
Again == /\ pc = 6 /\ round = 1 /\ round' = 2 /\ pc' = 1 /\ UNCHANGED <<user, val>>
Next == Fill \/ Again
Spec == Init /\ [][Next]_vars
UserKept == \A i \in 1..5 : user[i] # 0 => val[i] = user[i]
AllFilled == pc = 6 => \A i \in 1..5 : val[i] # 0
Closed == pc = 6 => LET v == VmaxOf(user[1], Sim)
                        b == BiasOf(user[4], v)
                    IN val = <<v, OrElse(user[2], v), OrElse(user[3], v), b, OrElse(user[5], b)>>
Idempotent == [][round = 2 => val' = val]_vars
Emit == (pc = 6 /\ round = 1) => PrintT("@@SCN " \o ToJson([limits |-> user]))
=============================================================================
