------------------------------- MODULE Masks --------------------------------
(* Mask shapes as sets of points of the plane.  Lengths are integers in      *)
(* sixteenths of a pixel; turns are rational: <<c, s, h>> is the rotation by *)
(* atan2(s, c) with c*c + s*s = h*h; opening angles are <<p, q>>: the half   *)
(* angle has tangent p/q, <<1, 0>> is a full opening.                        *)
EXTENDS Integers, Sequences, FiniteSets

Ab(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b

\* centre of pixel i (from 0) of an array of N pixels
Centre(i, N, cen) == IF cen = "pixel" THEN (16 * i) - (8 * N) ELSE (16 * i) - (8 * (N - 1))

\* coordinates of a point in the frame of a feature (offset, then turn), sixteenths
\* (numerators: times the hypotenuse of the turn)
Nx(f, x, y) == (f.t[1] * (x - f.ox)) + (f.t[2] * (y - f.oy))
Ny(f, x, y) == (f.t[1] * (y - f.oy)) - (f.t[2] * (x - f.ox))
Fx(f, x, y) == Nx(f, x, y) \div f.t[3]
Fy(f, x, y) == Ny(f, x, y) \div f.t[3]

(* A feature: kind, offset, turn, whether it blocks, and the transmission    *)
(* (in thousandths) where it blocks.                                         *)
InF(f, x, y) ==
  LET u == Nx(f, x, y)
      v == Ny(f, x, y)
      h == f.t[3]
  IN CASE f.k = "ell"   -> LET m == (u * 1024) \div (f.a * h)
                               n == (v * 1024) \div (f.b * h)
                           IN IF Ab(m) > 1100 \/ Ab(n) > 1100 THEN FALSE
                              ELSE (m * m) + (n * n) <= 1048576
       \* the wedges above and below a horizontal opening of half angle atan(p/q)
       [] f.k = "tb"    -> (f.q * Ab(v)) > (f.p * Ab(u))
       \* the wedges left and right of a vertical opening
       [] f.k = "lr"    -> (f.q * Ab(u)) > (f.p * Ab(v))
       \* a bar from the centre outwards
       [] f.k = "bar"   -> u >= 0 /\ u <= f.a * h /\ Ab(v) <= f.b * h
       \* a box of half widths a, b, with corners of radius p
       [] f.k = "box"   -> /\ Ab(u) <= f.a * h /\ Ab(v) <= f.b * h
                           /\ LET cu == (Ab(u) \div h) - (f.a - f.p)
                                  cv == (Ab(v) \div h) - (f.b - f.p)
                              IN f.p = 0 \/ cu <= 0 \/ cv <= 0 \/ (cu * cu) + (cv * cv) <= f.p * f.p
       \* a convex polygon, its vertices around the centre of the array in 1/a of a sixteenth
       [] f.k = "poly"  ->
            LET n == Len(f.vs)
                side(i) == LET a == f.vs[i]
                               b == f.vs[IF i = n THEN 1 ELSE i + 1]
                           IN ((b[1] - a[1]) * ((y * f.a) - a[2])) - ((b[2] - a[2]) * ((x * f.a) - a[1]))
            IN (\A i \in 1..n : side(i) >= 0) \/ (\A i \in 1..n : side(i) <= 0)
       [] OTHER -> FALSE
\* wedges are two convex pieces, the rest is convex
Convex(f) == f.k \in {"ell", "bar", "box", "poly"}

(* Sixty-fourths of the pixel at <<x, y>> that the feature covers; 0 and 64  *)
(* only if the edge stays clear of the pixel.                                *)
Sub == {-7, -5, -3, -1, 1, 3, 5, 7}
Ring10 == {p \in {-10, -5, 0, 5, 10} \X {-10, -5, 0, 5, 10} : Ab(p[1]) = 10 \/ Ab(p[2]) = 10} \cup {<<0, 0>>}
Count(f, x, y) == Cardinality({p \in Sub \X Sub : InF(f, x + p[1], y + p[2])})
Cover(f, x, y) ==
  LET n == Cardinality({c \in Ring10 : InF(f, x + c[1], y + c[2])})
  IN IF n = 17 THEN 64 ELSE IF n = 0 THEN 0
     ELSE LET k == Count(f, x, y) IN Mx(1, Mn(63, k))
\* transmission in thousandths and its uncertainty
Trans(f, c) == IF f.dark THEN 1000 - ((c * (1000 - f.amp)) \div 64) ELSE (c * 1000) \div 64
Loose(c, e) == IF c \in {0, 64} THEN 1 ELSE e

(* The value of the pixel: the product over the features. *)
RECURSIVE Product(_, _, _, _, _)
Product(fs, i, x, y, e) ==    \* <<value, tolerance>> in thousandths
  IF i > Len(fs) THEN <<1000, 1>>
  ELSE LET r == Product(fs, i + 1, x, y, e)
       IN IF r[1] = 0 /\ r[2] <= 1 THEN r
          ELSE LET c == Cover(fs[i], x, y)
                   t == Trans(fs[i], c)
               IN <<(t * r[1]) \div 1000, Mn(1000, Loose(c, e) + r[2])>>
Pixel(fs, x, y, e) == Product(fs, 1, x, y, e)

None == <<1, 0, 1>>
Ell(a, b, ox, oy, t, dark, amp) ==
  [k |-> "ell", a |-> a, b |-> b, p |-> 0, q |-> 0, ox |-> ox, oy |-> oy, t |-> t, dark |-> dark, amp |-> amp]
Disc(r, ox, oy, dark, amp) == Ell(r, r, ox, oy, None, dark, amp)
Wedge(k, o, ox, oy, t) ==
  [k |-> k, a |-> 0, b |-> 0, p |-> o[1], q |-> o[2], ox |-> ox, oy |-> oy, t |-> t, dark |-> TRUE, amp |-> 0]
Bar(l, w, ox, oy, t) ==
  [k |-> "bar", a |-> l, b |-> w \div 2, p |-> 0, q |-> 0, ox |-> ox, oy |-> oy, t |-> t, dark |-> TRUE, amp |-> 0]
\* one turn after another
Turned(t, u) == <<(t[1] * u[1]) - (t[2] * u[2]), (t[1] * u[2]) + (t[2] * u[1]), t[3] * u[3]>>

(* The families of masks.  m: [fam, ro, ri, ry (percent of stretch), ox, oy, *)
(* t, open, amp, bars (turns), w, nb (pixels across the beam), mag (percent)]*)
Opens(k, m) == IF m.open = <<1, 0>> THEN <<>> ELSE <<Wedge(k, m.open, m.ox, m.oy, m.t)>>
Hole(r, m, t) == IF r = 0 THEN <<>> ELSE <<Ell((r * m.st) \div 100, r, m.ox, m.oy, t, TRUE, m.amp)>>
Bars(m) == [i \in 1..Len(m.bars) |-> Bar((m.nb * 96) \div 10, m.w, m.ox, m.oy, Turned(m.bars[i], m.t))]
Mag(x, m) == (x * m.mag) \div 100
Box(m, p) == [k |-> "box", a |-> m.w \div 2, b |-> m.h \div 2, p |-> p, q |-> 0, ox |-> m.ox, oy |-> m.oy, t |-> m.t,
              dark |-> m.dark, amp |-> 0]
Poly(vs, a, dark) == [k |-> "poly", a |-> a, b |-> 0, p |-> 0, q |-> 0, ox |-> 0, oy |-> 0, t |-> None, dark |-> dark,
                      amp |-> 0, vs |-> vs]
\* cosine in thousandths of k times 15 degrees
Cos24 == <<1000, 966, 866, 707, 500, 259, 0, -259, -500, -707, -866, -966,
           -1000, -966, -866, -707, -500, -259, 0, 259, 500, 707, 866, 966>>
Cos15(k) == Cos24[(k % 24) + 1]
Sin15(k) == Cos15(k + 18)
\* the first vertex of a regular polygon is at the turn m.turn (times 15 degrees)
Regular(m) == [i \in 1..m.nb |-> LET k == m.turn + ((i * 24) \div m.nb)
                                 IN <<(16 * m.ox) + ((16 * m.ro * Cos15(k)) \div 1000),
                                      (16 * m.oy) + ((16 * m.ro * Sin15(k)) \div 1000)>>]
Features(m) ==
  CASE m.fam = "stop"    -> <<Disc(m.ro, 0, 0, FALSE, 0)>>
    [] m.fam = "annular" -> (IF m.ro = 0 THEN <<>> ELSE <<Disc(m.ro, m.ox, m.oy, FALSE, 0)>>)
                            \o <<Disc(m.ri, m.ox, m.oy, TRUE, m.amp)>>
    [] m.fam = "bowtie"  -> <<Disc(m.ro, m.ox, m.oy, FALSE, 0), Disc(m.ri, m.ox, m.oy, TRUE, 0)>>
                            \o Opens("tb", m)
    [] m.fam = "lyot"    -> <<Disc(Mag(m.ro, m), m.ox, m.oy, FALSE, 0), Disc(Mag(m.ri, m), m.ox, m.oy, TRUE, 0)>>
                            \o Opens("lr", m)
    [] m.fam = "simple"  -> <<Ell((m.ro * m.st) \div 100, m.ro, m.ox, m.oy, m.t, FALSE, 0)>>
                            \o Hole(m.ri, m, m.t) \o Bars(m)
    [] m.fam = "ellipse" -> <<Ell((Mag(m.ro, m) * m.st) \div 100, Mag(m.ro, m), m.ox, m.oy, m.t, FALSE, 0)>>
    [] m.fam = "poly"    -> <<Poly([i \in 1..Len(m.vs) |-> <<m.vs[i][1] + m.ox, m.vs[i][2] + m.oy>>], 1, m.dark)>>
    [] m.fam = "regular" -> <<Poly(Regular(m), 16, m.dark)>>
    [] m.fam = "box"     -> <<Box(m, 0)>>
    [] m.fam = "rounded" -> <<Box(m, m.ri)>>
    [] m.fam = "oval"    -> <<Ell(m.w \div 2, m.h \div 2, m.ox, m.oy, m.t, m.dark, 0)>>
    [] m.fam = "custom"  -> <<Disc(m.wo, 0, 0, FALSE, 0)>> \o (IF m.wi = 0 THEN <<>> ELSE <<Disc(m.wi, 0, 0, TRUE, 0)>>)
                            \o [i \in 1..Len(m.struts) |-> Bar(20 * m.wo, m.w, 0, 0, m.struts[i])]
    [] OTHER -> <<>>

\* The reach of the mask from the centre of the array, sixteenths of a pixel
Reach(m) == (IF m.ro = 0 THEN m.ri ELSE m.ro) + Mx(Ab(m.ox), Ab(m.oy))
\* Documented array sizes: even, containing the mask, no unneeded padding
SizeOK(m, N, cen) ==
  LET margin == IF cen = "pixel" THEN 16 ELSE 0
      need == (2 * Reach(m)) + margin          \* sixteenths
  IN /\ N % 2 = 0
     /\ CASE m.fam \in {"annular", "bowtie"} -> (16 * N) >= need /\ (16 * (N - 2)) < need + 16
          [] m.fam = "stop" -> (16 * N) >= need - 8 /\ (16 * (N - 2)) < need
          [] OTHER -> TRUE

\* A circle of radius r covers 355/113 r^2; in thousandths of a pixel
DiscArea(r) == (((r * r) \div 4) * 355 * 1000) \div (64 * 113)

(* Segmented masks: the hexagonal lattice in half steps, <<a, b>>: the       *)
(* column is a * sqrt(3)/2 separations, the row b/2 separations.  Segments   *)
(* are numbered ring by ring, starting at the top and going around.          *)
Faces == <<<<-1, -1>>, <<0, -2>>, <<1, -1>>, <<1, 1>>, <<0, 2>>, <<-1, 1>>>>
Ring(r) == IF r = 0 THEN << <<0, 0>> >>
           ELSE [i \in 1..(6 * r) |->
                   LET f == (i - 1) \div r          \* complete faces walked
                       k == (i - 1) % r
                       corner == CASE f = 0 -> <<0, 2 * r>>
                                   [] f = 1 -> <<-r, r>>
                                   [] f = 2 -> <<-r, -r>>
                                   [] f = 3 -> <<0, -2 * r>>
                                   [] f = 4 -> <<r, -r>>
                                   [] OTHER -> <<r, r>>
                   IN <<corner[1] + (k * Faces[f + 1][1]), corner[2] + (k * Faces[f + 1][2])>>]
Segments(r) == IF r = 0 THEN Ring(0) ELSE IF r = 1 THEN Ring(0) \o Ring(1)
               ELSE IF r = 2 THEN Ring(0) \o Ring(1) \o Ring(2)
               ELSE Ring(0) \o Ring(1) \o Ring(2) \o Ring(3)
Count3(r) == (3 * r * (r + 1)) + 1
Hex(w, col, row) == [k |-> "hex", a |-> w \div 2, b |-> 0, p |-> 0, q |-> 0, ox |-> col, oy |-> row,
                     t |-> None, dark |-> FALSE, amp |-> 0]
\* m: rings nb, width a segment ro, gap ri, present: sequence of 0/1
Hexes(m) == LET sep == m.ro + m.ri
                all == Segments(m.nb)
            IN {Hex(m.ro, m.ox + ((all[i][1] * sep * 97) \div 112), m.oy + ((all[i][2] * sep) \div 2)) :
                  i \in {j \in 1..Len(all) : m.bars[j] = 1}}

(* With soft edges only points away from the edges are decided: 1 inside,    *)
(* 0 outside, 2 near the edge.  g is the softness of the edge, percent.      *)
Soft(f, x, y) ==
  LET u == Fx(f, x, y)
      v == Fy(f, x, y)
      lo(a) == ((a * 95) \div 100) - 2
      hi(a) == ((a * 105) \div 100) + 2
  IN CASE f.k = "ell" -> IF InF([f EXCEPT !.a = Mx(1, lo(@)), !.b = Mx(1, lo(@))], x, y) THEN 1
                         ELSE IF ~InF([f EXCEPT !.a = hi(@), !.b = hi(@)], x, y) THEN 0 ELSE 2
       [] f.k = "bar" -> IF u >= 2 /\ Ab(v) <= lo(f.b) THEN 1
                         ELSE IF u <= -2 \/ Ab(v) > hi(f.b) THEN 0 ELSE 2
       [] OTHER ->       \* flats above and below and at sixty degrees
            LET d == Mx(Ab(v), Mx(Ab(((u * 97) \div 112) + (v \div 2)), Ab(((u * 97) \div 112) - (v \div 2))))
            IN IF d <= lo(f.a) THEN 1 ELSE IF d > hi(f.a) THEN 0 ELSE 2

(* A request places a shape on an array: pixels are counted in half pixels   *)
(* from the centre of the array.  r: q quarter turns, then the shift         *)
(* <<sx, sy>>, then a half turn of everything if rot.                        *)
RECURSIVE Spin(_, _)
Spin(p, q) == IF q = 0 THEN p ELSE Spin(<<-p[2], p[1]>>, q - 1)
OfShape(r, p) == LET s == Spin(p, r.q)
                     m == <<s[1] + r.sx, s[2] + r.sy>>
                 IN IF r.rot THEN <<-m[1], -m[2]>> ELSE m
ToShape(r, p) == LET m == IF r.rot THEN <<-p[1], -p[2]>> ELSE p
                 IN Spin(<<m[1] - r.sx, m[2] - r.sy>>, (4 - r.q) % 4)
Even(cen) == cen = "pixel"
HalfPixels(i, n, cen) == IF cen = "pixel" THEN (2 * i) - n ELSE (2 * i) - (n - 1)
Column(x, n, cen) == IF cen = "pixel" THEN (x + n) \div 2 ELSE (x + n - 1) \div 2
=============================================================================
