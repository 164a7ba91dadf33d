---------------------------- MODULE HybridTrace -----------------------------
EXTENDS TraceLib, ThinFilm, Hybrid
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
\* reflection and transmission times the denominator, as Gaussian integers
EvStack ==
  /\ Ev.ev = "stack"
  /\ LET m == Stack(Ev.films)
         up == Up(m, Ev.n0, Ev.ns)
         sg == IF Ev.pol = "TM" THEN -1 ELSE 1
     IN /\ Chk("Scale", Ev.scale2 = Scale2(m))
        /\ Chk("Exact:" \o Ev.pol, Ev.off <= 1000)
        /\ Chk("Transmission:" \o Ev.pol, Ev.down = Down(m, Ev.n0, Ev.ns))
        /\ Chk("Reflection:" \o Ev.pol, Ev.up = <<sg*up[1], sg*up[2]>>)
        /\ Chk("ReflectedPower:" \o Ev.pol, Ev.R = Sq(up))
        /\ Chk("TransmittedPower:" \o Ev.pol, Ev.T = Passed(m, Ev.n0, Ev.ns))
\* thickness maps in quarters of a nanometre and entries looked up
EvHeights == /\ Ev.ev = "heights"
             /\ Chk("Exact:" \o Ev.by, Ev.off <= 1000)
             /\ \A y \in 1..Len(Ev.h), x \in 1..Len(Ev.h) :
                  Chk("Height:" \o Ev.by, Ev.h[y][x] = Ev.bias + Height(Ev.acts, x-1, y-1))
EvLookup == /\ Ev.ev = "lookup"
            /\ \A y \in 1..Len(Ev.k), x \in 1..Len(Ev.k) :
                 /\ Chk("MetalEntry:" \o Ev.by, Nearest(Ev.metal, Height(Ev.acts8, x-1, y-1), Ev.k[y][x][1]))
                 /\ Chk("DielectricEntry:" \o Ev.by, Nearest(Ev.diel, Ev.bias + Height(Ev.acts9, x-1, y-1), Ev.k[y][x][2]))
                 /\ Chk("WavelengthEntry:" \o Ev.by, Ev.k[y][x][3] = Ev.lam)
EvNearest == /\ Ev.ev = "nearest"
             /\ \A i \in 1..Len(Ev.h) : Chk("NearestEntry", Nearest(Ev.t, Ev.h[i], Ev.k[i]))
EvRequest == Ev.ev = "request" /\ Chk("TableAskedFor:" \o Ev.which, Ev.r \in {Ev.fits[i] : i \in 1..Len(Ev.fits)})
EvLaw == Ev.ev = "law" /\ Chk(Ev.name, Ev.err <= Ev.tol)
TraceNext == More /\ l' = l + 1 /\ tid' = tid
             /\ (EvStack \/ EvHeights \/ EvLookup \/ EvNearest \/ EvRequest \/ EvLaw)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
