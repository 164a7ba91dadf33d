------------------------------ MODULE Response ------------------------------
(* The response matrix: one block per control mode, one column per usable    *)
(* actuator.  A column is the change of the field of its mode with the       *)
(* actuators it moves; the matrix depends on the present commands only, not  *)
(* on how, in which order or after what its columns were computed.           *)
EXTENDS Modes

\* a dead actuator and the second of a tied pair have no effect, the first
\* moves both
Still(a, dead, ties) == a \in dead \/ \E t \in ties : t[2] = a
Moves(a, dead, ties) == IF Still(a, dead, ties) THEN {}
                        ELSE {a} \cup {t[2] : t \in {u \in ties : u[1] = a}}

\* all modes in order: star by star, then sub-band by sub-band, then aberrations
AllModes(ns, perfect, zs, zero, nstar) ==
   LET one == StarModes(ns, perfect, zs, zero, 0)
   IN [i \in 1..(Len(one)*nstar) |->
         one[((i-1) % Len(one)) + 1] \o <<(i-1) \div Len(one)>>]
=============================================================================
