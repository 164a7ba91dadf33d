------------------------------ MODULE Spectrum ------------------------------
(* The spectral sampling of the models: ns sub-bands, nw wavelengths in each.*)
(* Wavelengths are integers in units of bandwidth/Den and weights integers   *)
(* in units of 1/WDen.                                                       *)
EXTENDS Integers, Sequences, FiniteSets

\* offset of wavelength wi of sub-band si from the centre of the band
Den(ns, nw, sim) == IF nw > 1 THEN 2*ns*(nw-1)
                    ELSE IF sim THEN (IF ns = 1 THEN 1 ELSE 2*(ns-1)) ELSE 2*ns
SbpMid(ns, si) == 2*si - (ns-1)
SbpCentre(ns, nw, sim, si) == SbpMid(ns, si)*(IF nw > 1 THEN nw-1 ELSE 1)
Lam(ns, nw, sim, si, wi) ==
   SbpCentre(ns, nw, sim, si) + (IF nw > 1 THEN 2*wi - (nw-1) ELSE 0)

\* end points of a sampled interval carry half the weight of interior points
EndHalf(n, i) == IF n = 1 THEN 2 ELSE IF i \in {0, n-1} THEN 1 ELSE 2
EndDen(n) == IF n = 1 THEN 2 ELSE 2*(n-1)
\* weights of the sub-bands (over SDen) and within a sub-band (over LDen)
Ends(nw, sim) == nw = 1 /\ sim
SW(ns, nw, sim, si) == IF Ends(nw, sim) THEN EndHalf(ns, si) ELSE 1
SDen(ns, nw, sim) == IF Ends(nw, sim) THEN EndDen(ns) ELSE ns
LW(nw, wi) == EndHalf(nw, wi)
LDen(nw) == EndDen(nw)
WDen(ns, nw, sim) == SDen(ns, nw, sim)*LDen(nw)

\* the samples in order of sub-band, then of wavelength
Samples(ns, nw) == [k \in 1..(ns*nw) |-> <<(k-1) \div nw, (k-1) % nw>>]

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0
                    ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)

\* the distinct wavelengths in increasing order, key(k) identifying equals
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                   IN <<m>> \o SortSet(S \ {m})
=============================================================================
