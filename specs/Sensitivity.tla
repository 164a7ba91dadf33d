---------------------------- MODULE Sensitivity -----------------------------
(* Sensitivities to aberrations: the mean change of intensity per region,    *)
(* over wavelengths and polarizations, when one aberration at a time is      *)
(* added to the entrance field.                                              *)
EXTENDS Integers, Sequences, FiniteSets
\* jobs: the nominal field and each aberrated field of every wavelength and
\* polarization; 0 stands for no aberration
Jobs(L, P, Z) == {<<w, p, z>> : w \in 1..L, p \in 1..P, z \in 0..Z}
\* a job's field (an exact stand-in for the optics): nominal plus a response
Response(w, p, z) == z*(p+2)*w
RECURSIVE SumSq(_, _, _)
SumSq(L, P, z) == LET RECURSIVE W(_), Q(_, _)
                      Q(w, p) == IF p = 0 THEN 0 ELSE Response(w, p, z)*Response(w, p, z) + Q(w, p-1)
                      W(w) == IF w = 0 THEN 0 ELSE Q(w, P) + W(w-1)
                  IN W(L)
=============================================================================
