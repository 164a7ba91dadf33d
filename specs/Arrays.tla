------------------------------- MODULE Arrays -------------------------------
(* Operations on two-dimensional arrays that keep the centre in place.  An   *)
(* array is a sequence of rows of whole numbers; the centre of n samples is  *)
(* sample n \div 2 (counting from 0).                                        *)
EXTENDS Integers, Sequences
LOCAL Mx(a, b) == IF a > b THEN a ELSE b

Rows(a) == Len(a)
Cols(a) == Len(a[1])
Mid(n) == n \div 2
Has(a, i, j) == i \in 0..(Rows(a)-1) /\ j \in 0..(Cols(a)-1)
At(a, i, j, fill) == IF Has(a, i, j) THEN a[i+1][j+1] ELSE fill
Build(r, c, F(_, _)) == [i \in 1..r |-> [j \in 1..c |-> F(i-1, j-1)]]

\* a window of r by c samples whose centre is sample (ci, cj) of a
Window(a, ci, cj, r, c, fill) ==
  Build(r, c, LAMBDA i, j : At(a, i - Mid(r) + ci, j - Mid(c) + cj, fill))
Crop(a, r, c, fill) == Window(a, Mid(Rows(a)), Mid(Cols(a)), r, c, fill)
Even(n) == n + (n % 2)
Square(a) == LET n == Even(Mx(Rows(a), Cols(a))) IN Crop(a, n, n, 0)

\* a relay turns the array half a turn about its centre; in a pixel-centred
\* array the first row and column have no partner and stay at the edge
Turn(a, centering) ==
  LET r == Rows(a)
      c == Cols(a)
  IN IF centering = "pixel"
     THEN Build(r, c, LAMBDA i, j : At(a, (r - i) % r, (c - j) % c, 0))
     ELSE Build(r, c, LAMBDA i, j : At(a, r - 1 - i, c - 1 - j, 0))
Relay(a, n, centering) == IF n % 2 = 1 THEN Turn(a, centering) ELSE a

RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n-1)
CanBin(a, k) == Rows(a) % k = 0 /\ Cols(a) % k = 0
\* sums of blocks (the mean times k*k)
Bin(a, k) == Build(Rows(a) \div k, Cols(a) \div k, LAMBDA i, j :
   SumF([m \in 1..(k*k) |-> At(a, i*k + ((m-1) \div k), j*k + ((m-1) % k), 0)], k*k))

\* half units: coordinate of sample i of n
Axis(n, centering) == [i \in 1..n |-> 2*(i - 1 - Mid(n)) +
                        (IF n % 2 = 0 /\ centering = "interpixel" THEN 1 ELSE 0)]

\* nearest whole number to h/2, halves to even
RoundHalf(h) == IF h % 2 = 0 THEN h \div 2
                ELSE LET k == (h-1) \div 2 IN IF k % 2 = 0 THEN k ELSE k + 1

Do(a, op) == CASE op.op = "crop" -> Crop(a, op.r, op.c, op.x)
               [] op.op = "square" -> Square(a)
               [] op.op = "relay" -> Relay(a, op.n, op.cen)
               [] op.op = "off" -> Window(a, RoundHalf(op.i2), RoundHalf(op.j2), op.r, op.c, 0)
               [] op.op = "bin" -> Bin(a, op.k)
=============================================================================
