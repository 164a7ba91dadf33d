------------------------------ MODULE Probing -------------------------------
(* Pairwise probing: for every star and sub-band one image at the nominal    *)
(* commands and then pairs of opposite probes on one mirror.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
\* phases of the probes of N pairs, in units of pi/N: k-th pair is k, k+N
PhaseOf(N, i) == ((i-1) \div 2) + (IF i % 2 = 1 THEN 0 ELSE N)
Opposite(N, a, b) == (a + N) % (2*N) = b % (2*N)
\* axis along which the probed region has its discontinuity
AxisOf(est, axis, itr, i) ==
   IF est = "rect" THEN "r"
   ELSE IF axis # "alternate" THEN axis
   ELSE IF ((itr + ((i-1) \div 2)) % 2) = 0 THEN "x" ELSE "y"
\* images in order: <<star, sub-band, probe>>, probe 0 = nominal commands
PerBand(N) == 1 + (2*N)
ImageAt(N, ns, k) == <<(k-1) \div (PerBand(N)*ns), ((k-1) \div PerBand(N)) % ns, (k-1) % PerBand(N)>>
NImages(N, ns, nst) == PerBand(N)*ns*nst
ModeOf(ns, star, sbp) == (star*ns) + sbp
\* a field can be solved for when two or more pairs moved it
Solvable(good) == Cardinality(good) >= 2
=============================================================================
