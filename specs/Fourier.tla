------------------------------ MODULE Fourier -------------------------------
(* Discrete Fourier sums whose phases are multiples of a quarter turn, so    *)
(* that they are exact in Gaussian integers <<re, im>>.                      *)
EXTENDS Integers, Sequences
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Mul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
\* exp(-i (pi/2) k)
Rot(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, -1>>
            [] k % 4 = 2 -> <<-1, 0>> [] k % 4 = 3 -> <<0, 1>>
RECURSIVE SumZ(_, _)
SumZ(f, n) == IF n = 0 THEN <<0, 0>> ELSE Add(f[n], SumZ(f, n-1))

\* coordinate of sample i (from 0) of n in half units
Half(i, n, cen) == 2*(i - (n \div 2)) + (IF n % 2 = 0 /\ cen = "interpixel" THEN 1 ELSE 0)

(* The transform of rows a, sampled at r by c points.  One step of each plane *)
(* makes a phase of qv (vertically) or qh (horizontally) quarter turns.       *)
(* Products of half units are quarters of that.                               *)
Turns(h, g, q) == (h*g*q) \div 4
Exact(h, g, q) == (h*g*q) % 4 = 0
Transform(a, r, c, qv, qh, cen) ==
  LET m == Len(a)
      n == Len(a[1])
  IN [i \in 1..r |-> [j \in 1..c |->
       SumZ([k \in 1..(m*n) |->
          LET y == (k-1) \div n
              x == (k-1) % n
          IN Mul(Rot(Turns(Half(i-1, r, cen), Half(y, m, cen), qv)
                     + Turns(Half(j-1, c, cen), Half(x, n, cen), qh)), a[y+1][x+1])], m*n)]]
Wholes(m, n, r, c, qv, qh, cen) ==
   /\ \A i \in 0..(r-1), y \in 0..(m-1) : Exact(Half(i, r, cen), Half(y, m, cen), qv)
   /\ \A j \in 0..(c-1), x \in 0..(n-1) : Exact(Half(j, c, cen), Half(x, n, cen), qh)

\* powers of a Gaussian integer
RECURSIVE Pow(_, _)
Pow(z, k) == IF k = 0 THEN <<1, 0>> ELSE Mul(z, Pow(z, k-1))

(* Angular spectrum on 4 samples: a distance of one unit delays the component *)
(* of frequency f by f*f quarter turns; the result is scaled by 16.           *)
Freq(k) == CASE k = 0 -> 0 [] k = 1 -> 1 [] k = 2 -> -2 [] k = 3 -> -1
Dft4(a, sgn) == [u \in 1..4 |-> [v \in 1..4 |->
    SumZ([k \in 1..16 |-> LET y == (k-1) \div 4
                              x == (k-1) % 4
                          IN Mul(Rot(sgn*((u-1)*y + (v-1)*x)), a[y+1][x+1])], 16)]]
Travel(a, d) ==
  LET s == Dft4(a, 1)
      t == [u \in 1..4 |-> [v \in 1..4 |->
              Mul(Rot(d*(Freq(u-1)*Freq(u-1) + Freq(v-1)*Freq(v-1))), s[u][v])]]
  IN Dft4(t, -1)
=============================================================================
