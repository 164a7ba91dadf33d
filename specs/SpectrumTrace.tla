--------------------------- MODULE SpectrumTrace ----------------------------
(* The spectral sampling set up by the code against Spectrum.                *)
EXTENDS TraceLib, Spectrum
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1

ns == Scn.ns
nw == Scn.nw
sim == Scn.sim
SP == Samples(ns, nw)
NS == ns*nw
\* identity of a wavelength: exact, or rounded to a picometre when the band
\* is so narrow that samples coincide at that level; lambda0 is a whole number
\* of picometres and one unit is u/3 pm
Num(i) == Lam(ns, nw, sim, SP[i][1], SP[i][2])
Pm(x) == IF x >= 0 THEN (2*x*Scn.u + 3) \div 6 ELSE -((-2*x*Scn.u + 3) \div 6)
Key(i) == IF Scn.u = 0 THEN Num(i) ELSE Pm(Num(i))
KeyList == SortSet({Key(i) : i \in 1..NS})
WOf(i) == SW(ns, nw, sim, SP[i][1])*LW(nw, SP[i][2])
KW(x) == LET S == {i \in 1..NS : Key(i) = x} IN SumOver(S, [i \in S |-> WOf(i)])

EvSpec == /\ Ev.ev = "spectrum"
          /\ Chk("SubbandCentres", Len(Ev.centers) = ns
                 /\ \A i \in 1..ns : Ev.centers[i] = SbpCentre(ns, nw, sim, i-1))
          /\ Chk("SubbandWeights", Len(Ev.sw) = ns
                 /\ \A i \in 1..ns : Ev.sw[i] = SW(ns, nw, sim, i-1))
          /\ Chk("WavelengthWeights", Len(Ev.lw) = nw
                 /\ \A i \in 1..nw : Ev.lw[i] = LW(nw, i-1))
          /\ Chk("WavelengthsOfSubbands", Len(Ev.mat) = NS
                 /\ \A i \in 1..NS : Ev.mat[i] = Num(i))
          /\ Chk("IndexOfEverySample", Ev.inds = [i \in 1..NS |-> SP[i]])
          /\ Chk("DistinctWavelengths", Ev.nuniq = Len(KeyList)
                 /\ Len(Ev.uniq) = Len(KeyList)
                 /\ \A i \in 1..Len(KeyList) :
                      \E j \in 1..NS : Key(j) = KeyList[i] /\ Ev.uniq[i] = Num(j))
          /\ Chk("RepresentativeOfEveryWavelength", Len(Ev.iuniq) = Len(KeyList)
                 /\ \A i \in 1..Len(KeyList) : Key(Ev.iuniq[i]+1) = KeyList[i])
          /\ Chk("WeightsOfDistinctWavelengths", Len(Ev.wall) = Len(KeyList)
                 /\ \A i \in 1..Len(KeyList) : Ev.wall[i] = KW(KeyList[i]))
          /\ Chk("WeightsSumToOne", Ev.sum = 1000000000)
          /\ Chk("ReferenceIndices", Ev.ref = <<ns \div 2, nw \div 2>>)
          /\ Chk("WholeNumbers", Ev.frac <= 1000)

TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ EvSpec
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
