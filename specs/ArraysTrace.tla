---------------------------- MODULE ArraysTrace -----------------------------
EXTENDS TraceLib, Arrays
VARIABLE a
vars == <<tid, l, a>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ a = Traces[tid].scn.first

EvOp == LET op == Scn.prog[Ev.k] IN
        /\ Ev.ev = "op"
        /\ Chk("Result:" \o op.op, Ev.out = Do(a, op))
        /\ Chk("TypeKept:" \o op.op, op.op = "bin" \/ Ev.sametype)
        /\ Chk("InputUnchanged:" \o op.op, Ev.inputkept)
        /\ Chk("CropIsCopy", op.op # "crop" \/ Ev.copied)
        /\ Chk("WholeNumbers", Ev.frac <= 1000)
        /\ a' = Do(a, op)
EvBinBad == /\ Ev.ev = "binbad"
            /\ Chk("UnevenBinningRejected", CanBin(a, Ev.k) \/ Ev.exc = "ValueError")
            /\ a' = a
EvAxis == /\ Ev.ev = "axis"
          /\ Chk("Axis", Ev.x = Axis(Ev.n, Ev.cen))
          /\ Chk("RadialGrid", \A i \in 1..Ev.n, j \in 1..Ev.n :
                LET x == Axis(Ev.n, Ev.cen)
                IN /\ Ev.r2[i][j] = Ev.sy*Ev.sy*x[j]*x[j] + Ev.sx*Ev.sx*x[i]*x[i]
                   /\ Ev.q[i][j] = Ev.r2[i][j])
          /\ Chk("AzimuthalGrid", \A i \in 1..Ev.n, j \in 1..Ev.n :
                LET x == Axis(Ev.n, Ev.cen)
                IN Ev.ax[i][j] = Ev.sy*x[j] /\ Ev.ay[i][j] = Ev.sx*x[i])
          /\ Chk("WholeNumbers", Ev.frac <= 1000)
          /\ a' = a
EvPolar == /\ Ev.ev = "polar"
           /\ Chk("PolarCoordinates", \A i \in 1..Ev.n, j \in 1..Ev.n :
                LET x == Axis(Ev.n, Ev.cen)
                IN Ev.x[i][j] = x[j] /\ Ev.y[i][j] = x[i] /\ Ev.r2[i][j] = x[i]*x[i] + x[j]*x[j])
           /\ Chk("WholeNumbers", Ev.frac <= 1000)
           /\ a' = a
\* v is in quarters
Ceil4(v) == -((-v) \div 4)
EvCeil == /\ Ev.ev = "ceil"
          /\ Chk("CeilEven", Ev.even % 2 = 0 /\ 4*Ev.even >= Ev.v /\ 4*Ev.even - Ev.v < 8)
          /\ Chk("CeilOdd", Ev.odd % 2 = 1 /\ 4*Ev.odd >= Ev.v /\ 4*Ev.odd - Ev.v < 8)
          /\ Chk("NextPowerOfTwo", IF Ev.v = 0 THEN Ev.p = 0 /\ Ev.m = 0 ELSE
                LET m == IF Ev.v > 0 THEN Ev.v ELSE -Ev.v
                IN Ev.p >= -2 /\ Ev.m = Ev.p /\ 2^(Ev.p + 2) >= m /\ (Ev.p = -2 \/ 2^(Ev.p + 1) < m))
          /\ a' = a

TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvOp \/ EvBinBad \/ EvAxis \/ EvPolar \/ EvCeil)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
