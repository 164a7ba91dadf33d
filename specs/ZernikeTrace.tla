---------------------------- MODULE ZernikeTrace ----------------------------
EXTENDS TraceLib, Zernike, Sensitivity
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
\* values v of polynomial j at points pts, without the factor, times R^n
EvMap == /\ Ev.ev = "map"
         /\ Chk("Factor:" \o Ev.by, Ev.norm = Norm2(Ev.j))
         /\ Chk("Exact:" \o Ev.by, Ev.off <= 1000)
         /\ \A i \in 1..Len(Ev.pts) : Chk("Value:" \o Ev.by,
               Ev.v[i] = Poly(Ev.j, Ev.pts[i][1], Ev.pts[i][2], Ev.R))
EvShape == Ev.ev = "shape" /\ Chk("ArraySize", Ev.n % 2 = 0 /\ Ev.n >= Scn.nb + (IF Scn.inter THEN 0 ELSE 1)
                                               /\ Ev.n <= Scn.nb + 2 /\ Ev.depth = Len(Scn.list))
EvExtra == /\ Ev.ev = "extra"
           /\ Chk("LargestPower", Ev.power = RadialOf(Ev.max))
           /\ Chk("LargestMultiple", \A j \in 1..Ev.max : AzimuthOf(j) <= Ev.times)
           /\ Chk("MultipleReached", \E j \in 1..Ev.max : AzimuthOf(j) = Ev.times)
EvLaw == Ev.ev = "law" /\ Chk(Ev.name, Ev.err <= Ev.tol)
\* calls of the full model while the sensitivities were computed:
\* w, p, and the aberrations found in the entrance field in thousandths
Zs(c) == {i \in 1..Len(c.z) : Abs(c.z[i]) > 1}
ModeOf(c) == IF Zs(c) = {} THEN 0 ELSE CHOOSE i \in Zs(c) : TRUE
EvCalls ==
  /\ Ev.ev = "calls"
  /\ \A i \in 1..Len(Ev.list) : LET c == Ev.list[i] IN
       /\ Chk("OneAberrationAtATime", Cardinality(Zs(c)) <= 1)
       /\ Chk("RequestedStrength", \A k \in Zs(c) : Abs(c.z[k] - 1000) <= 2)
       /\ Chk("KnownJob", <<c.w, c.p, ModeOf(c)>> \in Jobs(Ev.L, Ev.P, Ev.Z))
       /\ Chk("NominalStar", c.star)
       /\ Chk("NothingElseChanged", c.left <= 2)
  /\ Chk("EveryJobDone", Jobs(Ev.L, Ev.P, Ev.Z)
          \subseteq {<<Ev.list[i].w, Ev.list[i].p, ModeOf(Ev.list[i])>> : i \in 1..Len(Ev.list)})
\* the table in thousandths: aberrations by regions of known gain
EvTable == /\ Ev.ev = "table"
           /\ \A z \in 1..Ev.Z, a \in 1..Len(Ev.gain) :
                LET want == (1000*Ev.gain[a]*SumSq(Ev.L, Ev.P, z)) \div (Ev.L*Ev.P)
                IN Chk("Sensitivity:" \o Ev.how, Abs(Ev.got[z][a] - want) <= 2)
           /\ Chk("TableSize", Len(Ev.got) = Ev.Z)
TraceNext == More /\ l' = l + 1 /\ tid' = tid
             /\ (EvMap \/ EvShape \/ EvExtra \/ EvLaw \/ EvCalls \/ EvTable)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
