------------------------------ MODULE DarkHole ------------------------------
(* The correction and scoring regions of the focal plane.  Lengths are whole *)
(* numbers of quarter pixels; directions are pairs of whole numbers.         *)
EXTENDS Integers, Sequences, FiniteSets

RightNames == {"r", "right"}
LeftNames == {"l", "left"}
TopNames == {"t", "top", "u", "up"}
BottomNames == {"b", "bottom", "d", "down"}
LRNames == {"lr", "rl", "leftright", "rightleft", "both"}
TBNames == {"tb", "bt", "ud", "du", "topbottom", "bottomtop", "updown", "downup"}
AllNames == RightNames \cup LeftNames \cup TopNames \cup BottomNames \cup LRNames \cup TBNames
Side(n) == CASE n \in RightNames \cup LRNames -> <<1, 0>>
             [] n \in LeftNames -> <<-1, 0>>
             [] n \in TopNames \cup TBNames -> <<0, 1>>
             [] n \in BottomNames -> <<0, -1>>
TwoSided(n) == n \in LRNames \cup TBNames

\* product of two directions as rotations; the norm is the product of norms
Turn(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
Norm(h) == h[3]      \* clock directions are Pythagorean: <<c, s, norm>>

AbsV(x) == IF x < 0 THEN -x ELSE x

\* coordinate of sample i (0-based) of n, in quarter pixels
Coord(i, n, centering) == IF centering = "pixel" THEN 4*i - 2*n ELSE 4*i - 2*n + 2

\* sign (1 in, 0 on the edge, -1 out) of a non-negative or negative margin
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

(* A zone z: shape, side, clock <<c, s, h>>, half opening direction <<p, q>> *)
(* (q >= 0), ri, ro, xo, yo.  The four primary quantities of a pixel: its    *)
(* squared radius, its components along (u) and across (v) the axis of the   *)
(* zone; u and v carry the factor h.                                         *)
Axis(z) == Turn(Side(z.side), <<z.clk[1], z.clk[2]>>)
U(z, x, y) == x*Axis(z)[1] + y*Axis(z)[2]
V(z, x, y) == -x*Axis(z)[2] + y*Axis(z)[1]
R2(x, y) == x*x + y*y

\* the region without its opening angle; radii bound inclusively.  On the
\* edge along rotated axes the last bit of a cosine decides: open (0).
InShape(z, x, y) ==
  LET u == U(z, x, y)
      v == V(z, x, y)
      h == z.clk[3]
      exact == h = 1
      e(m) == IF m > 0 \/ (exact /\ m = 0) THEN 1 ELSE IF m = 0 THEN 0 ELSE -1
      a(m) == IF m >= 0 THEN 1 ELSE -1
  IN CASE z.shape \in {"circle", "annulus"} ->
            MinS({a(R2(x, y) - z.ri*z.ri), a(z.ro*z.ro - R2(x, y))})
       [] z.shape = "square" ->
            MinS({a(R2(x, y) - z.ri*z.ri), e(z.ro*h - AbsV(u)), e(z.ro*h - AbsV(v))})
       [] z.shape \in {"rect", "rectangle"} ->
            MinS({e(AbsV(u) - z.ri*h), e(z.ro*h - AbsV(u)), e(z.ro*h - AbsV(v))})
       [] z.shape = "d" ->
            MinS({e(AbsV(u) - z.ri*h), a(z.ro*z.ro - R2(x, y))})

\* within the opening angle about the direction +1 or -1 of the axis
InAngle(z, x, y, sgn) ==
  LET u == sgn*U(z, x, y)
      v == AbsV(V(z, x, y))
      p == z.half[1]
      q == z.half[2]
  IN IF q = 0 THEN (IF p < 0 THEN 1 ELSE IF v = 0 /\ u > 0 THEN 0 ELSE -1)
     ELSE IF u = 0 /\ v = 0 THEN 0
     ELSE Sgn(u*q - v*p)
InOpening(z, x, y) ==
  IF TwoSided(z.side)
  THEN IF z.half[1] <= 0 THEN 1        \* both halves together leave no gap
       ELSE MaxS({InAngle(z, x, y, 1), InAngle(z, x, y, -1)})
  ELSE InAngle(z, x, y, 1)

In(z, x, y) == MinS({InShape(z, x, y), InOpening(z, x, y)})
Shifted(z, X, Y) == In(z, X - z.xo, Y - z.yo)
InAny(zs, X, Y) == MaxS({Shifted(zs[i], X, Y) : i \in 1..Len(zs)})

\* smallest even size covering +-f (quarter pixels); a pixel-centred array
\* needs a whole further pixel
CeilDiv(a, b) == (a + b - 1) \div b
MinSize(f, centering) == IF centering = "pixel" THEN 2*CeilDiv(f + 2, 4)
                         ELSE 2*CeilDiv(f, 4)
=============================================================================
