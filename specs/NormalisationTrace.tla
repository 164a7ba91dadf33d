------------------------- MODULE NormalisationTrace -------------------------
EXTENDS TraceLib, Normalisation
VARIABLES s, unit
Start == [cmd |-> 0, ab |-> 0]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = Start /\ unit = Start
Tol == 2000
\* an operation, and whether it changed anything but its own
EvOp == /\ Ev.ev = "op" /\ s' = Moved(s, Ev.op) /\ unit' = Unit(unit, s, Ev.op) /\ Chk("ChangesNothingElse", Ev.same)
\* fields measured in the present state: errors against the field in units of
\* the peak of the reference source in each state (candidates)
Fits(c) == c.cmd = unit.cmd /\ c.ab = unit.ab
EvShot == /\ Ev.ev = "shot" /\ s' = s /\ unit' = unit
          /\ Chk("InTheUnitOf" \o Ev.model, \E i \in 1..Len(Ev.fits) : Fits(Ev.fits[i]) /\ Ev.fits[i].err <= Tol)
          /\ Chk("UnitPeak" \o Ev.model, (Ev.source = "reference" /\ s = unit) => Ev.peak <= Tol)
EvLaw == /\ Ev.ev = "law" /\ s' = s /\ unit' = unit /\ Chk(Ev.name, Ev.err <= Ev.tol)
\* throughput for growing radii, in billionths, and for the whole field
EvThroughput == /\ Ev.ev = "throughput" /\ s' = s /\ unit' = unit
   /\ Chk("ThroughputGrowsWithRadius", \A i \in 1..(Len(Ev.thputs)-1) : Ev.thputs[i] <= Ev.thputs[i+1])
   /\ Chk("ThroughputIsAFraction", \A i \in 1..Len(Ev.thputs) : Ev.thputs[i] >= 0 /\ Ev.thputs[i] <= 1000000000)
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvOp \/ EvShot \/ EvLaw \/ EvThroughput)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, s, unit>>
=============================================================================
