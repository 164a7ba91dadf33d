--------------------------- MODULE GradientModel ----------------------------
(* Grid of regularisations, each by descent inside the bounds from the same  *)
(* commands; the commands of a trial are taken back; the best is applied.    *)
EXTENDS Gradient, TLC, Json
CONSTANTS Fields, Jacs, Weights, Regs, Lo, Hi
VARIABLES E, J, W, w, regs, i, u, V, costs, sols, pc
vars == <<E, J, W, w, regs, i, u, V, costs, sols, pc>>
Zero == <<0, 0>>
Init == /\ E \in Fields /\ J \in Jacs /\ W \in Weights /\ w \in {<<1, 2>>, <<3, 1>>} /\ regs \in Regs
        /\ i = 1 /\ u = Zero /\ V = Zero /\ costs = <<>> /\ sols = <<>> /\ pc = "descend"
C(x) == Cost(E, J, W, w, regs[i], x)
Inside(x) == \A a \in 1..2 : W[a]*x[a] >= Lo /\ W[a]*x[a] <= Hi
Nbrs == {[u EXCEPT ![a] = u[a] + s] : a \in 1..2, s \in {-1, 1}}
Better == {x \in Nbrs : Inside(x) /\ C(x) < C(u)}
Descend == /\ pc = "descend" /\ Better # {} /\ \E x \in Better : u' = x
           /\ UNCHANGED <<E, J, W, w, regs, i, V, costs, sols, pc>>
Measure == /\ pc = "descend" /\ Better = {} /\ V' = [a \in 1..2 |-> W[a]*u[a]]
           /\ costs' = Append(costs, Cost(E, J, W, w, 0, u)) /\ sols' = Append(sols, u) /\ pc' = "restore"
           /\ UNCHANGED <<E, J, W, w, regs, i, u>>
Restore == /\ pc = "restore" /\ V' = Zero /\ u' = Zero
           /\ IF i < Len(regs) THEN i' = i + 1 /\ pc' = "descend" ELSE i' = i /\ pc' = "apply"
           /\ UNCHANGED <<E, J, W, w, regs, costs, sols>>
Apply == /\ pc = "apply" /\ pc' = "done" /\ LET b == BestOf(costs) IN V' = [a \in 1..2 |-> W[a]*sols[b][a]]
         /\ UNCHANGED <<E, J, W, w, regs, i, u, costs, sols>>
Next == Descend \/ Measure \/ Restore \/ Apply
Spec == Init /\ [][Next]_vars
\* cost(u+1) - cost(u-1) = 2 times the derivative of a quadratic
HalfIsTheDerivative == pc = "descend" => \A a \in 1..2 :
   C([u EXCEPT ![a] = u[a]+1]) - C([u EXCEPT ![a] = u[a]-1]) = 4*Half(E, J, W, w, regs[i], u, a)
AlwaysInside == \A a \in 1..2 : V[a] >= Lo /\ V[a] <= Hi
TrialsStartClean == (pc = "descend" /\ u = Zero) => V = Zero
NeverWorse == \A k \in 1..Len(sols) : Cost(E, J, W, w, regs[k], sols[k]) <= Cost(E, J, W, w, regs[k], Zero)
BestApplied == pc = "done" => \A k \in 1..Len(costs) : Cost(E, J, W, w, 0, [a \in 1..2 |-> V[a] \div W[a]]) <= costs[k]
=============================================================================
