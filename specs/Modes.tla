------------------------------- MODULE Modes --------------------------------
(* The list of control modes: (sub-band, aberration, star) combinations and  *)
(* their weights (integers over WDenM, per aberration column).               *)
EXTENDS Integers, Sequences, FiniteSets

\* zs: sequence of Noll indices (1 = piston); zero: set of Noll indices whose
\* configured amplitude is zero (piston never counts as zero)
Raw(ns, perfect, z, si) ==
   LET in == z = 1 \/ si \in {0, ns \div 2, ns-1}
       b == IF ~in THEN 0 ELSE 4
       f1 == IF perfect /\ si = 0 THEN 2 ELSE 1
       f2 == IF perfect /\ si = ns-1 THEN 2 ELSE 1
   IN (b \div f1) \div f2
RECURSIVE ColSumR(_, _, _, _)
ColSumR(ns, perfect, z, k) == IF k = 0 THEN 0
   ELSE Raw(ns, perfect, z, k-1) + ColSumR(ns, perfect, z, k-1)
ColSum(ns, perfect, z) == ColSumR(ns, perfect, z, ns)
Dropped(z, zero) == z # 1 /\ z \in zero
Weight(ns, perfect, zero, z, si, den) ==
   IF Dropped(z, zero) THEN 0 ELSE (den*Raw(ns, perfect, z, si)) \div ColSum(ns, perfect, z)

\* modes of one star in order: sub-band by sub-band, aberrations in the order given
RECURSIVE StarModes(_, _, _, _, _)
StarModes(ns, perfect, zs, zero, k) ==
   IF k = ns*Len(zs) THEN <<>>
   ELSE LET si == k \div Len(zs)
            z == zs[(k % Len(zs)) + 1]
            on == ~Dropped(z, zero) /\ Raw(ns, perfect, z, si) > 0
        IN (IF on THEN <<<<si, z>>>> ELSE <<>>) \o StarModes(ns, perfect, zs, zero, k+1)
=============================================================================
