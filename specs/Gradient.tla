------------------------------ MODULE Gradient ------------------------------
(* Control by optimisation: the cost of a change u of the command is         *)
(*   sum over modes  w_m |E_m + J_m (W u)|^2  +  r |u|^2                     *)
(* with W the weights of the mirrors.  Toy dimensions: complex numbers are   *)
(* pairs of integers, one pixel per mode.                                    *)
EXTENDS Integers, Sequences, FiniteSets
\* E: field per mode, J: per mode and actuator, W: weight of the actuator
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n-1) + f[n]
Part(E, J, W, u, m, c) == E[m][c] + SumTo([a \in 1..Len(u) |-> J[m][a][c]*W[a]*u[a]], Len(u))
Cost(E, J, W, w, r, u) ==
   SumTo([m \in 1..Len(E) |-> w[m]*((Part(E, J, W, u, m, 1)*Part(E, J, W, u, m, 1)) + (Part(E, J, W, u, m, 2)*Part(E, J, W, u, m, 2)))], Len(E))
   + (r*SumTo([a \in 1..Len(u) |-> u[a]*u[a]], Len(u)))
\* half the gradient
Half(E, J, W, w, r, u, a) ==
   SumTo([m \in 1..Len(E) |-> w[m]*W[a]*((J[m][a][1]*Part(E, J, W, u, m, 1)) + (J[m][a][2]*Part(E, J, W, u, m, 2)))], Len(E))
   + (r*u[a])
\* index of the first of the smallest
BestOf(s) == CHOOSE i \in 1..Len(s) : (\A j \in 1..Len(s) : s[i] <= s[j]) /\ (\A j \in 1..(i-1) : s[j] > s[i])
\* regularisation in force: grid = searched this iteration, best = last found
\* <<use the best found, offset or value>>
RegUsed(useBest, value, best) == IF useBest THEN best + value ELSE value
=============================================================================
