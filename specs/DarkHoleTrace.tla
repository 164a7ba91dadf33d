--------------------------- MODULE DarkHoleTrace ----------------------------
(* The regions set up by the code against DarkHole.  A scenario has zones    *)
(* zs, the scoring radii sc, the centering cen, the resolution, the          *)
(* requested field of view (in quarter pixels) or sizes.                     *)
EXTENDS TraceLib, DarkHole
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1

Z == Scn.zs
SZ == [i \in 1..Len(Z) |-> [Z[i] EXCEPT !.ri = Scn.sc[i][1], !.ro = Scn.sc[i][2]]]
\* the field of view of a zone: the configured one, or its outer radius; the
\* corner of a rotated square needs more (en/ed), and offsets come on top
Squarish(z) == z.shape \in {"square", "rect", "rectangle"}
Ext(z, f) == IF Squarish(z) /\ 2*AbsV(z.clk[1]) > z.clk[3]
             THEN CeilDiv(2*f*AbsV(z.clk[1]), z.clk[3]) ELSE f
Need(z, d) == LET f == IF Scn.fov = 0 THEN z.ro ELSE Scn.fov
                  full == IF d = 1 THEN Scn.xifov ELSE Scn.etafov
              IN IF full # 0 THEN full
                 ELSE Ext(z, f) + AbsV(IF d = 1 THEN z.xo ELSE z.yo)
Size(d) == LET n == IF d = 1 THEN Scn.nxi ELSE Scn.neta
           IN IF n # 0 THEN n
              ELSE MaxS({MinSize(Need(Z[i], d), Scn.cen) : i \in 1..Len(Z)})
\* the corner of a rotated square falling exactly on a limit: last bit decides
Close(d, n) == \/ n = Size(d)
               \/ /\ n = Size(d) + 2
                  /\ ~Scn.exact \/ \E i \in 1..Len(Z) : Z[i].clk[3] > 1 /\ Squarish(Z[i])
                  /\ \E i \in 1..Len(Z) : MinSize(Need(Z[i], d) + 1, Scn.cen) = n
NX == Ev.nxi
NY == Ev.neta
Seen(row, zs, j) == \A i \in 1..NX :
   LET m == InAny(zs, Coord(i-1, NX, Scn.cen), Coord(j-1, NY, Scn.cen))
   IN m # 0 => row[i] = (IF m = 1 THEN 1 ELSE 0)
Region(rows, zs) == Len(rows) = NY /\ \A j \in 1..NY : Len(rows[j]) = NX /\ Seen(rows[j], zs, j)
Flat(rows) == [k \in 1..(NX*NY) |-> rows[((k-1) \div NX) + 1][((k-1) % NX) + 1]]
RECURSIVE Sel(_, _)
Sel(a, m) == IF a = <<>> THEN <<>>
             ELSE (IF Head(m) = 1 THEN <<Head(a)>> ELSE <<>>) \o Sel(Tail(a), Tail(m))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s)*Prod(Tail(s))
EvalRatio(n) == 2*CeilDiv(Scn.evn*n, 2*Scn.evd)      \* evaluation resolution evn/evd
\* weight of a pixel: square roots of the weights of all annuli it lies in
W(k) == LET x == Coord((k-1) % NX, NX, Scn.cen)
            y == Coord((k-1) \div NX, NY, Scn.cen)
        IN Prod([a \in 1..Len(Scn.wdef) |->
                   IF R2(x, y) >= Scn.wdef[a][1]*Scn.wdef[a][1]
                      /\ R2(x, y) < Scn.wdef[a][2]*Scn.wdef[a][2]
                   THEN Scn.wdef[a][3] ELSE 1])

EvRegion ==
  /\ Ev.ev = "region"
  /\ Chk("FieldOfView", Close(1, Ev.nxi) /\ Close(2, Ev.neta))
  /\ (Close(1, Ev.nxi) /\ Close(2, Ev.neta)) =>
     /\ Chk("CorrectionRegion", Region(Ev.corr, Z))
     /\ Chk("ScoringRegion", Region(Ev.score, SZ))
     /\ Chk("Axes", Ev.xis = [i \in 1..NX |-> Coord(i-1, NX, Scn.cen)]
                    /\ Ev.etas = [i \in 1..NY |-> Coord(i-1, NY, Scn.cen)])
     /\ Chk("Radii", Ev.r2 = [k \in 1..(NX*NY) |->
                R2(Coord((k-1) % NX, NX, Scn.cen), Coord((k-1) \div NX, NY, Scn.cen))])
     /\ LET c == Flat(Ev.corr)
            s == Flat(Ev.score)
        IN /\ Chk("NumbersOfPixels", Ev.npix = Cardinality({k \in 1..(NX*NY) : c[k] = 1})
                                  /\ Ev.nscore = Cardinality({k \in 1..(NX*NY) : s[k] = 1}))
           /\ Chk("ScoreWithinVector", Ev.sic = Sel(s, c))
           /\ LET w == Sel([k \in 1..(NX*NY) |-> W(k)], c)
              IN Chk("SpatialWeights", \A st \in 1..Len(Scn.sw) :
                    Ev.ws[st] = [k \in 1..Len(w) |-> w[k]*Scn.sw[st]])
     /\ Chk("EvaluationGrid", LET n == EvalRatio(NX)
                                  m == EvalRatio(NY)
                              IN /\ Ev.evnxi = n /\ Ev.evneta = m
                                 /\ Ev.evxis = [i \in 1..n |-> Coord(i-1, n, Scn.cen)]
                                 /\ Ev.evetas = [i \in 1..m |-> Coord(i-1, m, Scn.cen)])
  /\ Chk("WholeNumbers", Ev.frac <= 1000)

TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ EvRegion
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
