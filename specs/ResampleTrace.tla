---------------------------- MODULE ResampleTrace ---------------------------
EXTENDS TraceLib, Resample
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
Near(v, w) == Abs(v - w) <= 1
\* a map read onto the beam: thousandths
EvMap == /\ Ev.ev = "map"
         /\ \A j \in 1..Ev.n, i \in 1..Ev.n :
              LET w == Placed(Ev.map, Ev.p, Ev.n, i-1, j-1)
              IN w # Open => /\ Chk("Returned:" \o Ev.by, Near(Ev.got[j][i], 1000*w))
                             /\ Chk("Applied:" \o Ev.by,
                                    LET z == Act(<<1, 0>>, Ev.kind, w)
                                    IN Near(Ev.re[j][i], 1000*z[1]) /\ Near(Ev.im[j][i], 1000*z[2]))
\* elements met by the field: maps of integers
RECURSIVE Run(_, _, _, _)
Run(z, ops, i, j) == IF ops = <<>> THEN z
                     ELSE Run(Act(z, ops[1].kind, ops[1].map[j][i]), Tail(ops), i, j)
EvField == /\ Ev.ev = "field"
           /\ \A j \in 1..Ev.n, i \in 1..Ev.n :
                LET z == Run(<<1, 0>>, Ev.ops, i, j)
                IN /\ Chk("Field:" \o Ev.by, Near(Ev.re[j][i], 1000*z[1]) /\ Near(Ev.im[j][i], 1000*z[2]))
                   /\ Chk("Intensity:" \o Ev.by, Near(Ev.power[j][i], 1000*(z[1]*z[1] + z[2]*z[2])))
                   /\ Chk("Phase:" \o Ev.by, (z[1]*z[2] = 0 /\ z # <<0, 0>>) =>
                         LET k == IF z[2] = 0 THEN (IF z[1] > 0 THEN 0 ELSE 2) ELSE (IF z[2] > 0 THEN 1 ELSE -1)
                         IN Near(Ev.turn[j][i], 1000*k) \/ (k = 2 /\ Near(Ev.turn[j][i], -2000)))
\* where each segment of an aperture is
EvSegment == /\ Ev.ev = "segment"
             /\ LET s == Segments(Ev.rings) IN
                /\ Chk("SegmentCount", Ev.k < Len(s))
                /\ Chk("SegmentPlace", <<Ev.x, Ev.h>> = s[Ev.k+1])
EvLaw == Ev.ev = "law" /\ Chk(Ev.name, Ev.err <= Ev.tol)
TraceNext == More /\ l' = l + 1 /\ tid' = tid
             /\ (EvMap \/ EvField \/ EvSegment \/ EvLaw)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
