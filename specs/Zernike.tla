------------------------------ MODULE Zernike -------------------------------
(* Zernike polynomials in the order of Noll, as exact integer polynomials.   *)
(* A point is (x, y) in units of which the beam radius has R.                *)
EXTENDS Integers, Sequences
RECURSIVE Degree(_, _)
Degree(j, n) == IF ((n+1)*(n+2)) \div 2 >= j THEN n ELSE Degree(j, n+1)
RadialOf(j) == Degree(j, 0)
AzimuthOf(j) == LET n == RadialOf(j)
                    k == j - (n*(n+1)) \div 2
                IN IF n % 2 = 0 THEN 2*(k \div 2) ELSE 2*((k-1) \div 2) + 1
\* cosine terms have even numbers
Kind(j) == IF AzimuthOf(j) = 0 THEN "axial" ELSE IF j % 2 = 0 THEN "cos" ELSE "sin"
\* square of the factor that makes the RMS over the disc one
Norm2(j) == LET n == RadialOf(j) IN IF AzimuthOf(j) = 0 THEN n+1 ELSE 2*(n+1)

RECURSIVE Fact(_), Pow(_, _)
Fact(n) == IF n <= 1 THEN 1 ELSE n*Fact(n-1)
Pow(b, e) == IF e = 0 THEN 1 ELSE b*Pow(b, e-1)
\* falling product n (n-1) ... (n-k+1)
RECURSIVE Fall(_, _)
Fall(n, k) == IF k = 0 THEN 1 ELSE n*Fall(n-1, k-1)
Choose2(n, k) == Fall(n, k) \div Fact(k)
\* coefficient of r^(n-2k): (-1)^k (n-k)! / (k! ((n+m)/2-k)! ((n-m)/2-k)!)
Coef(n, m, k) == (IF k % 2 = 0 THEN 1 ELSE -1)
                 * Choose2(n-k, k) * Choose2(n-2*k, ((n-m) \div 2) - k)

\* real and imaginary part of (x + i y)^m
RECURSIVE Harm(_, _, _)
Harm(m, x, y) == IF m = 0 THEN <<1, 0>>
                 ELSE LET h == Harm(m-1, x, y) IN <<h[1]*x - h[2]*y, h[1]*y + h[2]*x>>
Angular(j, x, y) == LET h == Harm(AzimuthOf(j), x, y) IN IF Kind(j) = "sin" THEN h[2] ELSE h[1]

\* value without the factor, times R^n
Poly(j, x, y, R) ==
  LET n == RadialOf(j)
      m == AzimuthOf(j)
      r2 == x*x + y*y
      RECURSIVE Sum(_)
      Sum(k) == IF k < 0 THEN 0
                ELSE Sum(k-1) + Coef(n, m, k)*Pow(r2, ((n-m) \div 2) - k)*Pow(R, 2*k)
  IN Angular(j, x, y)*Sum((n-m) \div 2)
=============================================================================
