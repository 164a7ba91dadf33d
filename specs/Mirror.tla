------------------------------- MODULE Mirror -------------------------------
(* Where the actuators of a deformable mirror are, as seen along the beam.   *)
(* Lengths are in eighths of an actuator pitch.  Tilts are 0, 60 or -60      *)
(* degrees and clockings quarter turns, for which every coefficient of the   *)
(* projection onto the beam is a whole number of quarters.                   *)
EXTENDS Integers, Sequences
Orientations == <<"rot0", "rot90", "rot180", "rot270",
                  "flipxrot0", "flipxrot90", "flipxrot180", "flipxrot270">>
\* where the value of command (r, c) of n by n goes: mirrored, then turned
Flip(o, n, p) == IF o > 4 THEN <<p[1], n-1-p[2]>> ELSE p
Turn(n, p) == <<n-1-p[2], p[1]>>
RECURSIVE Turns(_, _, _)
Turns(k, n, p) == IF k = 0 THEN p ELSE Turns(k-1, n, Turn(n, p))
Seat(o, n, p) == Turns((o-1) % 4, n, Flip(o, n, p))

Tilts == {-60, 0, 60}
\* twice the cosine, and four times the product of two sines
Cos2(t) == IF t = 0 THEN 2 ELSE 1
SinSin4(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = b THEN 3 ELSE -3
\* cosine and sine of the clocking of k quarter turns
CosK(k) == <<1, 0, -1, 0>>[(k % 4) + 1]
SinK(k) == <<0, 1, 0, -1>>[(k % 4) + 1]

\* projection matrix in quarters for tilts a about x, b about y and a clocking
\* of k quarter turns (left handed), in the order x, y, z or z, y, x
Proj(a, b, k, zyx) ==
  LET cg == CosK(k)
      sg == -SinK(k)
      ca == Cos2(a)
      cb == Cos2(b)
      ss == SinSin4(a, b)
  IN IF ~zyx THEN <<<<2*cb*cg, ss*cg - 2*ca*sg>>, <<2*cb*sg, ss*sg + 2*ca*cg>>>>
             ELSE <<<<2*cb*cg, -2*cb*sg>>, <<2*ca*sg + ss*cg, 2*ca*cg - ss*sg>>>>
\* determinant in sixteenths: the foreshortening of an area
Area(m) == m[1][1]*m[2][2] - m[1][2]*m[2][1]

\* centre of the beam on the mirror: xc2, yc2 in half pitches
Place(m, xc2, yc2, seat) ==
  LET x == 2*seat[2] - xc2
      y == 2*seat[1] - yc2
  IN <<m[1][1]*x + m[1][2]*y, m[2][1]*x + m[2][2]*y>>

\* heights rounded to a step: v and the result in tenths of a nanometre
Steps(how, v, s) ==
  LET down == v \div s
      up == -((-v) \div s)
      twice == 2*(v - down*s)
  IN CASE how = "floor" -> down
       [] how = "ceil" -> up
       [] how = "fix" -> IF v >= 0 THEN down ELSE up
       [] how = "round" -> IF twice < s THEN down ELSE IF twice > s THEN up
                           ELSE IF down % 2 = 0 THEN down ELSE up
=============================================================================
