---------------------------- MODULE FourierTrace ----------------------------
EXTENDS TraceLib, Fourier
Ar == INSTANCE Arrays
VARIABLE pos
vars == <<tid, l, pos>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ pos = 0

Same == UNCHANGED pos
EvMft == /\ Ev.ev = "mft"
         /\ Chk("PupilToFocus", Ev.p2f = Transform(Ev.a, Ev.r, Ev.c, Ev.qv, Ev.qh, Ev.cen))
         /\ Chk("WholeNumbers", Ev.frac <= 2000)
         /\ Same
EvBack == /\ Ev.ev = "back"
          /\ Chk("FocusToPupil", Ev.f2p = Transform(Ev.a, Ev.n, Ev.n, Ev.qv, Ev.qh, Ev.cen))
          /\ Chk("WholeNumbers", Ev.frac <= 2000)
          /\ Same
EvFft == /\ Ev.ev = "fft"
         /\ Chk("CentredFft", Ev.out = Transform(Ev.a, 4, 4, 1, 1, "pixel"))
         /\ Chk("WholeNumbers", Ev.frac <= 2000)
         /\ Same
\* a full grid: there and back is the identity, there and there a half turn
EvGrid == /\ Ev.ev = "grid"
          /\ Chk("FftRoundTrip", Ev.fftback = Ev.a)
          /\ Chk("TwoTransformsAreARelay", Ev.twice = Ar!Relay(Ev.a, 1, Ev.cen))
          /\ Chk("InverseTransform", Ev.inverse = Ev.a)
          /\ Chk("Linear", Ev.lin <= 1000)
          /\ Chk("Energy", Ev.energy <= 1000)
          /\ Chk("WholeNumbers", Ev.frac <= 2000)
          /\ Same
EvTravel4 == /\ Ev.ev = "travel4"
             /\ Chk("AngularSpectrum", Ev.out = Travel(Ev.a, pos + Ev.d))
             /\ Chk("WholeNumbers", Ev.frac <= 2000)
             /\ pos' = pos + Ev.d
EvTravel == /\ Ev.ev = "travel"
            /\ Chk("OnlyTotalDistanceCounts", Ev.direct <= 100)
            /\ Chk("EnergyKept", Ev.energy <= 100)
            /\ Chk("ReturnsToStart", pos + Ev.d # 0 \/ Ev.start <= 100)
            /\ Chk("MovesOtherwise", pos + Ev.d = 0 \/ Ev.start > 100000)
            /\ pos' = pos + Ev.d
EvVortex == /\ Ev.ev = "vortex"
            /\ Chk("VortexPhase", Ev.mask = [k \in 1..(Ev.n*Ev.n) |->
                  LET y == ((k-1) \div Ev.n) - (Ev.n \div 2)
                      x == ((k-1) % Ev.n) - (Ev.n \div 2)
                  IN IF x = 0 /\ y = 0 THEN Ev.mask[k]
                     ELSE IF Ev.charge >= 0 THEN Pow(<<x, y>>, Ev.charge)
                          ELSE Pow(<<x, -y>>, -Ev.charge)])
            /\ Chk("WholeNumbers", Ev.frac <= 2000)
            /\ Same
EvLyot == /\ Ev.ev = "lyot"
          /\ Chk("ReverseIsAdjoint", Ev.adj <= 1000)
          /\ Chk("VortexLinear", Ev.lin <= 1000)
          /\ Chk("NoChargeIsARelay", Ev.charge # 0 \/ Ev.relay <= 10000000)
          /\ Chk("VortexEmptiesThePupil", Ev.charge \notin {2, 4, 6} \/ Ev.leak <= 300)
          /\ Chk("InputUnchanged", Ev.kept)
          /\ Same
EvCharge == /\ Ev.ev = "charge"
            /\ Chk("ChargeInterpolated", 4*Ev.got = Ev.c[1]*(4 - Ev.t) + Ev.c[2]*Ev.t)
            /\ Same
TraceNext == More /\ l' = l + 1 /\ tid' = tid
             /\ (EvMft \/ EvBack \/ EvFft \/ EvGrid \/ EvTravel4 \/ EvTravel \/ EvVortex \/ EvLyot \/ EvCharge)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
