------------------------------ MODULE Resample ------------------------------
(* Maps placed on the grid of a beam, and the elements that act on its field. *)
(* A map is a sequence of rows of integers.  A placement says which point of  *)
(* the map is on the axis, how many steps of the map one step of the beam is  *)
(* (a/b), how far the map is moved and by how many quarter turns (counter-    *)
(* clockwise, x to the right and y upwards along rows) it is then turned.     *)
EXTENDS Integers, Sequences
Open == 999999
\* point of the map under pixel (i, j) of a grid of n (counted from 0), before
\* turning, times b
SrcX(p, n, i) == (i - (n \div 2))*p.a + p.xc - p.sx
SrcY(p, n, j) == (j - (n \div 2))*p.a + p.yc - p.sy
Edge(v, n) == IF v < 0 THEN 0 ELSE IF v > n-1 THEN n-1 ELSE v
\* beyond the map its edge goes on
Before(m, p, n, i, j) ==
  LET x == SrcX(p, n, i)
      y == SrcY(p, n, j)
  IN IF x % p.b # 0 \/ y % p.b # 0 THEN Open
     ELSE m[Edge(y \div p.b, Len(m)) + 1][Edge(x \div p.b, Len(m[1])) + 1]
Turned(q, x, y) == CASE q = 0 -> <<x, y>> [] q = 1 -> <<y, -x>> [] q = 2 -> <<-x, -y>> [] q = 3 -> <<-y, x>>
\* the part of the turned grid that nothing was turned into stays empty
Placed(m, p, n, i, j) ==
  LET h == n \div 2
      s == Turned(p.q, i-h, j-h)
      x == s[1] + h
      y == s[2] + h
      v == Before(m, p, n, x, y)
  IN IF x \notin 0..(n-1) \/ y \notin 0..(n-1) THEN 0
     ELSE IF v = Open THEN Open ELSE v*p.f
\* default centre of a map
Centre(m, b) == <<b*(Len(m[1]) \div 2), b*(Len(m) \div 2)>>

\* ---- Gaussian integers
Times(z, w) == <<z[1]*w[1] - z[2]*w[2], z[1]*w[2] + z[2]*w[1]>>
QuarterTurn(k) == CASE (k % 4) = 0 -> <<1, 0>> [] (k % 4) = 1 -> <<0, 1>> [] (k % 4) = 2 -> <<-1, 0>> [] (k % 4) = 3 -> <<0, -1>>
\* elements: every pixel of the field is changed by its own pixel of the map
Act(z, kind, v) == CASE kind = "multiply" -> <<z[1]*v, z[2]*v>>
                     [] kind = "divide" -> <<z[1]*v, z[2]*v>>      \* by 1 or -1
                     [] kind = "phase" -> Times(z, QuarterTurn(v))
                     [] kind = "surface" -> Times(z, QuarterTurn(-v))
                     [] kind = "add" -> <<z[1] + v, z[2]>>
\* a whole program of <<kind, v>> seen by one pixel
RECURSIVE Through(_, _)
Through(z, prog) == IF prog = <<>> THEN z ELSE Through(Act(z, prog[1][1], prog[1][2]), Tail(prog))

\* ---- hexagonal segments: columns at x = ring*sqrt(3)/2, heights in halves of
\* the distance between segments; the k-th segment from 0
RECURSIVE Column(_, _, _), Rings(_, _)
Column(N, r, k) == IF k > 2*N-r THEN <<>>
                   ELSE LET h == r - 2*N + 2*k
                        IN (IF r = 0 THEN <<<<0, h>>>> ELSE <<<<r, h>>, <<-r, h>>>>) \o Column(N, r, k+1)
Rings(N, r) == IF r > N THEN <<>> ELSE Column(N, r, 0) \o Rings(N, r+1)
Segments(N) == Rings(N, 0)
=============================================================================
