------------------------------ MODULE WfscLoop ------------------------------
(* Design of the wavefront sensing and control loop.                         *)
(*                                                                           *)
(* State: the commands of the two DMs (abstract versions), the Jacobian (the *)
(* commands and DMs it was linearised at/for), the field estimate (the       *)
(* commands it was taken at), the best regularisation found by the latest    *)
(* grid search, and the recorded history.  One action per phase of the code: *)
(* start of an iteration, relinearise, estimate, try one (reg, factor) pair, *)
(* choose, finish.  The intensity a trial reaches is the environment's       *)
(* choice, so every ranking of the trials is explored.                       *)
EXTENDS Schedule, TLC, Json

CONSTANTS MaxRows, MaxItr, RegN, Emit

VARIABLES rows, itr, pc, V, jac, est, best, trials, hist, used, saved

vars == <<rows, itr, pc, V, jac, est, best, trials, hist, used, saved>>

RowSet == [n : {0}, re : {0}, im : {0}, dms : {0}, relin : {0, 1}, grid : {0, 1}]
          \cup [n : 1..2, re : {-3000}, im : {0}, dms : {1, 2, 12},
                relin : {0, 1}, grid : {0, 1}]
          \cup [n : 1..2, re : {0, -1000}, im : {1}, dms : {1, 2, 12},
                relin : {0, 1}, grid : {0, 1}]

IsMarker(r) == r.n = 0
Scheds == {s \in UNION {[1..k -> RowSet] : k \in 1..MaxRows} :
             /\ NItr(s) <= MaxItr
             /\ Followable(s)
             /\ \A i \in 1..Len(s) : IsMarker(s[i]) => s[i].relin + s[i].grid > 0
             /\ Cardinality({i \in 1..Len(s) : IsMarker(s[i])}) <= 1
             /\ ~IsMarker(s[Len(s)])}

Pairs == 1..RegN     \* the (reg, factor) pairs of a grid search

Init == /\ rows \in Scheds
        /\ itr = 0 /\ pc = "start"
        /\ V = [d \in {1, 2} |-> 0]
        /\ jac = [at |-> -1, dms |-> {}, v |-> [d \in {1, 2} |-> 0]]
        /\ est = [at |-> -1, v |-> [d \in {1, 2} |-> 0]]
        /\ best = 0 /\ trials = {} /\ hist = <<>> /\ used = <<>>
        /\ saved = [d \in {1, 2} |-> 0]
        /\ (Emit => PrintT("@@SCN " \o ToJson([rows |-> rows])))

D == Dms(rows, itr)
Relin == itr = 0 \/ itr \in RelinItrs(rows)
Grid == itr \in GridItrs(rows)

Start == /\ pc = "start"
         /\ hist' = Append(hist, V)
         /\ pc' = IF Relin THEN "relin" ELSE "est"
         /\ UNCHANGED <<rows, itr, V, jac, est, best, trials, used, saved>>
Relinearize == /\ pc = "relin"
               /\ jac' = [at |-> itr, dms |-> D, v |-> V]
               /\ pc' = "est"
               /\ UNCHANGED <<rows, itr, V, est, best, trials, hist, used, saved>>
Estimate == /\ pc = "est"
            /\ est' = [at |-> itr, v |-> V]
            /\ saved' = V
            /\ trials' = {}
            /\ pc' = IF Grid THEN "grid" ELSE "final"
            /\ UNCHANGED <<rows, itr, V, jac, best, hist, used>>
\* A trial applies pre + delta, takes an image and puts the commands back.
Trial(p) == /\ pc = "grid" /\ p \notin trials
            /\ trials' = trials \cup {p}
            /\ V' = [d \in {1, 2} |-> IF d \in D THEN 100*(itr+1) + p ELSE V[d]]
            /\ pc' = "restore"
            /\ UNCHANGED <<rows, itr, jac, est, best, hist, used, saved>>
Restore == /\ pc = "restore"
           /\ V' = saved
           /\ pc' = IF trials = Pairs THEN "choose" ELSE "grid"
           /\ UNCHANGED <<rows, itr, jac, est, best, trials, hist, used, saved>>
\* the environment decides which pair reached the lowest intensity
Choose(p) == /\ pc = "choose"
             /\ best' = p
             /\ pc' = "final"
             /\ UNCHANGED <<rows, itr, V, jac, est, trials, hist, used, saved>>
RegUsed == IF RegIm(rows, itr) = 1 THEN <<best, RegRe(rows, itr)>>
           ELSE <<0, RegRe(rows, itr)>>
Final == /\ pc = "final"
         /\ V' = [d \in {1, 2} |-> IF d \in D THEN 100*(itr+1) + 50 ELSE V[d]]
         /\ used' = Append(used, RegUsed)
         /\ IF itr + 1 < NItr(rows)
            THEN /\ itr' = itr + 1 /\ pc' = "start" /\ hist' = hist
            ELSE /\ itr' = itr /\ pc' = "done" /\ hist' = Append(hist, V')
         /\ UNCHANGED <<rows, jac, est, best, trials, saved>>
Done == pc = "done" /\ UNCHANGED vars

Next == Start \/ Relinearize \/ Estimate \/ (\E p \in Pairs : Trial(p)) \/ Restore
        \/ (\E p \in Pairs : Choose(p)) \/ Final \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- properties ---------------------------------------------------------
\* the control step uses the Jacobian of the latest scheduled linearisation
LatestRelin == CHOOSE k \in {0} \cup RelinItrs(rows) :
                 k <= itr /\ \A j \in {0} \cup RelinItrs(rows) : j <= itr => j <= k
JacobianFresh == pc \in {"grid", "restore", "choose", "final"} =>
                    jac.at = LatestRelin /\ jac.v = hist[jac.at + 1]
                    /\ D \subseteq jac.dms
EstimateFresh == pc \in {"grid", "choose", "final"} => est.at = itr /\ est.v = V
TrialsLeaveNoTrace == pc \in {"grid", "choose", "final"} => V = saved
TrialsStartFromSaved == pc = "restore" => \A d \in {1, 2} \ D : V[d] = saved[d]
HistoryIsWhatWasApplied ==
    /\ Len(hist) = IF pc = "start" THEN itr ELSE IF pc = "done" THEN NItr(rows)+1 ELSE itr + 1
    /\ (pc = "done" => hist[Len(hist)] = V)
BestKnownWhenUsed == pc = "final" /\ RegIm(rows, itr) = 1 => best # 0
OnlyScheduledMove == [][\A d \in {1, 2} : V'[d] # V[d] => d \in D]_vars
Terminates == <>(pc = "done")
=============================================================================
