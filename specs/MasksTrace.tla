----------------------------- MODULE MasksTrace -----------------------------
(* Masks made by the code against the shapes of Masks.                       *)
EXTENDS TraceLib, Masks, Drawings

S == Scn
M == S.m
FS == Features(M)
\* v is the array, row by row, in thousandths
PixelsAs(v, n) ==
  \A j \in 0..(n-1) : \A i \in 0..(n-1) :
    LET r == Pixel(FS, Centre(i, n, S.cen), Centre(j, n, S.cen), S.edge)
    IN Abs(v[(j * n) + i + 1] - r[1]) <= r[2]
\* soft edges: only the pixels away from the edges
Segs == Hexes(M)
SegSoft(x, y) == LET near == {h \in Segs : Abs(x - h.ox) <= M.ro /\ Abs(y - h.oy) <= M.ro}
                     c == {Soft(h, x, y) : h \in near}
                 IN IF 1 \in c THEN 1 ELSE IF 2 \in c THEN 2 ELSE 0
ClearPixels(v, n) ==
  \A j \in 0..(n-1) : \A i \in 0..(n-1) :
    LET x == Centre(i, n, S.cen)
        y == Centre(j, n, S.cen)
        one(k) == LET c == Soft(FS[k], x, y) IN IF c = 2 THEN 2 ELSE IF FS[k].dark THEN 1 - c ELSE c
        all == {one(k) : k \in 1..Len(FS)} \cup (IF M.fam \in {"hex", "custom"} THEN {SegSoft(x, y)} ELSE {})
        w == v[(j * n) + i + 1]
    IN (0 \in all => w <= 10) /\ (all = {1} => w >= 990)

Mask(e) ==
  /\ Chk("Size", IF M.fam \in {"stop", "annular", "bowtie"} /\ S.narr = 0 THEN SizeOK(M, e.n, S.cen)
                 ELSE IF S.narr > 0 THEN e.n = S.narr ELSE e.n % 2 = 0)
  /\ Chk("BetweenOpaqueAndClear", \A i \in 1..Len(e.v) : e.v[i] >= 0 /\ e.v[i] <= 1000)
  /\ IF e.hg THEN Chk("ShapeAwayFromEdges", ClearPixels(e.v, e.n))
     ELSE Chk("EveryPixel", PixelsAs(e.v, e.n))
  /\ Chk("Area", IF M.fam = "stop" THEN Abs(e.sum - DiscArea(M.ro)) <= (DiscArea(M.ro) \div 150) + (IF S.cen = "pixel" THEN 400 ELSE 0)
                 ELSE IF M.fam = "annular" /\ M.ro > 0 /\ M.ri < M.ro /\ S.narr = 0
                 THEN Abs(e.sum - (DiscArea(M.ro) - (((1000 - M.amp) * (DiscArea(M.ri) \div 10)) \div 100))) <= DiscArea(M.ro) \div 150
                 ELSE TRUE)
  /\ Chk("SameAgain", e.again)
  /\ Chk("RequestUnchanged", e.kept)

(* The same shape placed twice: every pixel of the one array is found in the *)
(* other array at its place, or is dark if that is outside of the array.     *)
At(v, n, cen, p) ==
  LET i == Column(p[1], n, cen)
      j == Column(p[2], n, cen)
  IN IF i < 0 \/ j < 0 \/ i >= n \/ j >= n THEN 0 ELSE v[(j * n) + i + 1]
Covered(e, r, rn, rc, rv, s, sn, sc, sv) ==
  \A j \in 0..(rn - 1) : \A i \in 0..(rn - 1) :
    LET p == ToShape(r, <<HalfPixels(i, rn, rc), HalfPixels(j, rn, rc)>>)
        w == At(sv, sn, sc, OfShape(s, p))
        u == rv[(j * rn) + i + 1]
    IN CASE e.rel = "same" -> Abs(u - w) <= e.tol
         [] e.rel = "less" -> IF e.first THEN u <= w + e.tol ELSE TRUE
         [] OTHER -> FALSE
Pair(e) ==
  /\ Chk("SquareAndEven", e.na % 2 = 0 /\ e.nb % 2 = 0 /\ Len(e.a) = e.na * e.na /\ Len(e.b) = e.nb * e.nb)
  /\ Chk("SomethingThere", \E i \in 1..Len(e.a) : e.a[i] >= 300)
  /\ Chk("PlacedAsRequested:" \o e.kind,
         /\ Covered([rel |-> e.rel, tol |-> e.tol, first |-> TRUE], e.ra, e.na, e.ca, e.a, e.rb, e.nb, e.cb, e.b)
         /\ Covered([rel |-> e.rel, tol |-> e.tol, first |-> FALSE], e.rb, e.nb, e.cb, e.b, e.ra, e.na, e.ca, e.a))
  /\ Chk("RequestUnchanged", e.kept)
  /\ Chk("SameAgain", e.again)

(* Vortex masks: the value at <<x, y>> (half pixels) is (z/|z|)^charge; here *)
(* in ten thousandths for even charges, by squaring z/|z|.                   *)
Mul(a, b) == <<((a[1] * b[1]) - (a[2] * b[2])) \div 10000, ((a[1] * b[2]) + (a[2] * b[1])) \div 10000>>
RECURSIVE Power(_, _)
Power(z, k) == IF k = 0 THEN <<10000, 0>> ELSE Mul(z, Power(z, k - 1))
Vortex(e) ==
  Chk("VortexPhase",
      \A j \in 0..(e.n - 1) : \A i \in 0..(e.n - 1) :
        LET x == (2 * i) - e.n
            y == (2 * j) - e.n
            m == (x * x) + (y * y)
            z == IF m = 0 THEN <<10000, 0>>
                 ELSE <<(((x * x) - (y * y)) * 10000) \div m, (2 * x * y * 10000) \div m>>
            w == Power(z, e.half)
            u == <<e.re[(j * e.n) + i + 1], e.im[(j * e.n) + i + 1]>>
        IN IF m = 0 THEN Abs(u[1]) <= 10000
           ELSE Abs(u[1] - w[1]) <= 12 * (e.half + 1) /\ Abs(u[2] - (IF e.neg THEN -w[2] ELSE w[2])) <= 12 * (e.half + 1))

Segment(e) == Chk("SegmentCount", e.count = Count3(e.rings))

(* The field of a mirror of segments with pistons in quarter waves: the      *)
(* matching power of i inside of each segment, nothing in the gaps.          *)
Lattice(m) == LET sep == m.ro + m.ri
                  all == Segments(m.nb)
              IN [i \in 1..Len(all) |-> Hex(m.ro, (all[i][1] * sep * 97) \div 112, (all[i][2] * sep) \div 2)]
Quarter4(k) == CASE k % 4 = 0 -> <<1000, 0>> [] k % 4 = 1 -> <<0, 1000>> [] k % 4 = 2 -> <<-1000, 0>> [] OTHER -> <<0, -1000>>
SegField(e) ==
  LET m == S.mirror
      L == Lattice(m)
      present == {i \in 1..Len(L) : m.bars[i] = 1}
  IN /\ Chk("FieldSize", e.n = S.n /\ Len(e.re) = e.n * e.n)
     /\ Chk("SegmentField",
            \A j \in 0..(e.n - 1) : \A i \in 0..(e.n - 1) :
              LET x == Centre(i, e.n, "pixel")
                  y == Centre(j, e.n, "pixel")
                  near == {k \in present : Abs(x - L[k].ox) <= m.ro /\ Abs(y - L[k].oy) <= m.ro}
                  c == [k \in near |-> Soft(L[k], x, y)]
                  u == e.re[(j * e.n) + i + 1]
                  v == e.im[(j * e.n) + i + 1]
              IN IF \E k \in near : c[k] = 1
                 THEN LET w == Quarter4(S.quarters[CHOOSE k \in near : c[k] = 1])
                      IN Abs(u - w[1]) <= 10 /\ Abs(v - w[2]) <= 10
                 ELSE IF \A k \in near : c[k] = 0 THEN Abs(u) <= 10 /\ Abs(v) <= 10 ELSE TRUE)

(* the aperture asked for, turned by scn.turn and magnified, is the one drawn *)
Look(e) ==
  LET d == Drawing(Scn.look)
  IN /\ Chk("OpenShare", Abs(e.open - d.open) <= 2)
     /\ Chk("AsDrawn", \A k \in 1..Len(d.rays) :
            Around(e.seen[k], d.rays[k].at, Scn.turn + (IF Scn.rot THEN 1800 ELSE 0), d.rays[k].tol))
     /\ Chk("Nothing", e.outside = 0)
Event(e) == CASE e.ev = "look" -> Look(e)
              [] e.ev = "field" -> SegField(e)
              [] e.ev = "tilted" -> Chk("SegmentTilt", e.err <= 1000)
              [] e.ev = "mask" -> Mask(e)
              [] e.ev = "pair" -> Pair(e)
              [] e.ev = "vortex" -> Vortex(e)
              [] e.ev = "count" -> Segment(e)
              [] OTHER -> FALSE

TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ Event(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
=============================================================================
