---------------------------- MODULE ImagingTrace ----------------------------
(* Images returned by the code against their definition.                     *)
EXTENDS TraceLib, Imaging
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1

ns == Scn.ns
nw == Scn.nw
sim == Scn.sim
np == Scn.np
nst == Scn.nst
NK == Scn.neta*Scn.nxi
cst == Scn.cst      \* stars of the compact model

Whole == Chk("WholeNumbers", Ev.frac <= 1000)
EvSum == /\ Ev.ev = "sum"
         /\ Chk("BandImageIsWeightedSum", Ev.img = [k \in 1..NK |-> BandImage(ns, nw, sim, np, nst, k-1)])
         /\ Chk("ImageShape", Ev.shape = <<Scn.neta, Scn.nxi>>)
         /\ Chk("ImagingChangesNothing", Ev.same)
         /\ Whole
EvSbp == /\ Ev.ev = "sbp"
         /\ Chk("SubbandImageIsWeightedSum",
                Ev.img = [k \in 1..NK |-> SbpImage(ns, nw, sim, np, nst, Ev.si, k-1)])
         /\ Chk("ImageShape", Ev.shape = <<Scn.neta, Scn.nxi>>)
         /\ Chk("ImagingChangesNothing", Ev.same)
         /\ Whole
\* pixels of the image that lie in the correction region hold the prediction
EvExp == /\ Ev.ev = "expected"
         /\ Chk("ExpectedImage", \A k \in 1..NK :
              Ev.img[k] = IF Ev.mask[k] = 0 THEN 0
                          ELSE ExpectedImage(ns, nw, sim, cst, k-1, Ev.a, Ev.b,
                                 IF Ev.m1 THEN Ev.da ELSE 0, IF Ev.m2 THEN Ev.db ELSE 0))
         /\ Chk("ImagingChangesNothing", Ev.same)
         /\ Whole
EvOff == /\ Ev.ev = "offaxis"
         /\ Chk("OffaxisImage", Ev.img =
              [k \in 1..NK |-> OffaxisImage(ns, Scn.perfect, cst, k-1, Ev.x, Ev.y, Ev.iseval)])
         /\ Chk("ImagingChangesNothing", Ev.same)
         /\ Whole
\* throughput: energy of the off-axis image in its core over the energy of the
\* pupil, times the mean peak normalisation; in units of 1/(PDen*pupil*ns)
OI(k) == OffaxisImage(ns, Scn.perfect, cst, k-1, Scn.x, Scn.y, TRUE)
Core == IF Ev.metric = "hmi" THEN {k \in 1..NK : \A j \in 1..NK : 2*OI(k) >= OI(j)}
        ELSE {k \in 1..NK : Ev.rhos[k] <= Ev.radius}
EvThput == /\ Ev.ev = "thput"
           /\ Chk("Throughput", Ev.t = SumOver(Core, [k \in Core |-> OI(k)])*SumSeq(Ev.i00))
           /\ Chk("ThroughputImage", Ev.img = [k \in 1..NK |-> OI(k)])
           /\ Chk("ImagingChangesNothing", Ev.same)
           /\ Whole
\* noisy image of a uniform scene with signal e electrons and dark current d
\* per exposure: the mean is (e+d)/gain counts, the variance of the average is
\* (e+d+read^2)/gain^2/n plus rounding; mean in 1/1000 counts, var in 1/1000
Mean == (1000*(Ev.e + Ev.d)) \div Ev.gain
Var == (((1000*(Ev.e + Ev.d + Ev.read*Ev.read)) \div (Ev.gain*Ev.gain)) + 83) \div Ev.n
EvNoise == /\ Ev.ev = "noise"
           /\ Chk("NoiseMean", Abs(Ev.mean - Mean) <= Ev.tolmean)
           /\ Chk("NoiseVariance", Abs(Ev.var - Var)*100 <= 12*Var + 500)
           /\ Chk("WholeCounts", Ev.countfrac <= 1000)
           /\ Chk("ImagingChangesNothing", Ev.same)
\* the noisy band image is the weighted sum of noisy sub-band images
EvNoisy == /\ Ev.ev = "noisysum"
           /\ Chk("NoisyBandImage", Ev.mean >= Ev.want - Ev.tol /\ Ev.mean <= Ev.want + Ev.tol)
           /\ Chk("NoiseApplied", Ev.noisy)

TraceNext == More /\ l' = l + 1 /\ tid' = tid
             /\ (EvSum \/ EvSbp \/ EvExp \/ EvOff \/ EvThput \/ EvNoise \/ EvNoisy)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
