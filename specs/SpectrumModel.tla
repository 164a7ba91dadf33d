--------------------------- MODULE SpectrumModel ----------------------------
(* Builds the list of full-model wavelengths sample by sample, merging equal *)
(* ones, and checks that the result partitions the band.                     *)
EXTENDS Spectrum, TLC, Json
CONSTANTS MaxS, MaxW
VARIABLES ns, nw, sim, k, tab     \* tab: sequence of <<wavelength, weight>>
vars == <<ns, nw, sim, k, tab>>

Init == /\ ns \in 1..MaxS /\ nw \in 1..MaxW /\ sim \in BOOLEAN
        /\ k = 0 /\ tab = <<>>
N == ns*nw
S(i) == Samples(ns, nw)[i]
Wt(i) == SW(ns, nw, sim, S(i)[1])*LW(nw, S(i)[2])
Add == LET x == Lam(ns, nw, sim, S(k+1)[1], S(k+1)[2])
           w == Wt(k+1)
           n == Len(tab)
       IN IF n > 0 /\ tab[n][1] = x
          THEN tab' = [tab EXCEPT ![n][2] = @ + w]
          ELSE tab' = Append(tab, <<x, w>>)
Done == k = N
Next == \/ /\ ~Done /\ Add /\ k' = k+1 /\ UNCHANGED <<ns, nw, sim>>
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Sorted == \A i \in 1..(Len(tab)-1) : tab[i][1] < tab[i+1][1]
D == Den(ns, nw, sim)
PartitionsBand ==
  Done => LET n == Len(tab) IN
    /\ SumSeq([i \in 1..n |-> tab[i][2]]) = WDen(ns, nw, sim)
    /\ SumSeq([i \in 1..nw |-> LW(nw, i-1)]) = LDen(nw)
    /\ SumSeq([i \in 1..ns |-> SW(ns, nw, sim, i-1)]) = SDen(ns, nw, sim)
    /\ \A i \in 1..n : tab[i][1] = -tab[n+1-i][1] /\ tab[i][2] = tab[n+1-i][2]
    \* equal spacing, and the whole band is covered when it can be
    /\ n > 2 => \A i \in 1..(n-1) : tab[i+1][1]-tab[i][1] = tab[2][1]-tab[1][1]
    /\ (nw > 1 \/ (sim /\ ns > 1)) => 2*tab[n][1] = D
    \* interior samples all weigh the same: the trapezoidal rule
    /\ nw > 1 => /\ n = ns*(nw-1) + 1
                 /\ \A i \in 2..(n-1) : tab[i][2] = 2 /\ tab[1][2] = 1
Emit == (Done => PrintT("@@SCN " \o ToJson([ns |-> ns, nw |-> nw, sim |-> sim,
           den |-> D, wden |-> WDen(ns, nw, sim), sden |-> SDen(ns, nw, sim),
           lden |-> LDen(nw)])))
=============================================================================
