------------------------------ MODULE Imaging -------------------------------
(* What an image is: the sum over wavelengths, polarisation states and stars *)
(* of squared model fields with the spectral weights.  Fields are Gaussian   *)
(* integers chosen so that every evaluation has its own value.               *)
EXTENDS Spectrum

\* the field of the full model at distinct wavelength r, polarisation p, star s, pixel k
FRe(r, p, s, k) == ((7*r + 11*p + 13*s + 17*k + r*p*s) % 10) - 4
FIm(r, p, s, k) == ((5*r + 3*p + 7*s + 2*k + 2*r*p) % 7) - 2
FSq(r, p, s, k) == FRe(r, p, s, k)*FRe(r, p, s, k) + FIm(r, p, s, k)*FIm(r, p, s, k)

\* over p < np and s < nst: FSq(r, p, s, k)
SumPS(r, np, nst, k) == LET R[i \in 0..(np*nst)] ==
                              IF i = 0 THEN 0
                              ELSE R[i-1] + FSq(r, (i-1) \div nst, (i-1) % nst, k)
                        IN R[np*nst]

\* distinct wavelengths, rank of every sample
Keys(ns, nw, sim) == SortSet({Lam(ns, nw, sim, si, wi) : si \in 0..(ns-1), wi \in 0..(nw-1)})
Rank(ns, nw, sim, si, wi) ==
   LET K == Keys(ns, nw, sim)
   IN (CHOOSE i \in 1..Len(K) : K[i] = Lam(ns, nw, sim, si, wi)) - 1

\* image of a sub-band, in units of 1/(LDen*np)
SbpImage(ns, nw, sim, np, nst, si, k) ==
   LET R[i \in 0..nw] == IF i = 0 THEN 0
         ELSE R[i-1] + LW(nw, i-1)*SumPS(Rank(ns, nw, sim, si, i-1), np, nst, k)
   IN R[nw]
\* image of the whole band, in units of 1/(SDen*LDen*np)
BandImage(ns, nw, sim, np, nst, k) ==
   LET R[i \in 0..ns] == IF i = 0 THEN 0
         ELSE R[i-1] + SW(ns, nw, sim, i-1)*SbpImage(ns, nw, sim, np, nst, i-1, k)
   IN R[ns]
\* weight of a distinct wavelength, over SDen*LDen
RankWeight(ns, nw, sim, r) ==
   LET S == {q \in (0..(ns-1)) \X (0..(nw-1)) : Rank(ns, nw, sim, q[1], q[2]) = r}
   IN SumOver(S, [q \in S |-> SW(ns, nw, sim, q[1])*LW(nw, q[2])])

\* --- compact model stand-in: sub-band si, star s, pixel k, commands a (DM1), b (DM2)
CRe(si, s, k, a, b) == ((3*si + 5*s + 7*k + 4) % 9) - 3 + 2*a - b + k*a
CIm(si, s, k, a, b) == ((2*si + 3*s + 5*k + 1) % 8) - 4 + b + s*b - a*si
\* estimate handed to the controller
ERe(si, s, k) == ((11*si + 4*s + 3*k) % 7) - 3
EIm(si, s, k) == ((5*si + 9*s + 2*k) % 6) - 2
\* image predicted for commands (a,b) reached by the step (da,db), over SDen
ExpectedImage(ns, nw, sim, nst, k, a, b, da, db) ==
   LET R[i \in 0..(ns*nst)] == IF i = 0 THEN 0
         ELSE LET si == (i-1) \div nst
                  s == (i-1) % nst
                  x == ERe(si, s, k) + CRe(si, s, k, a, b) - CRe(si, s, k, a-da, b-db)
                  y == EIm(si, s, k) + CIm(si, s, k, a, b) - CIm(si, s, k, a-da, b-db)
              IN R[i-1] + SW(ns, nw, sim, si)*(x*x + y*y)
   IN R[ns*nst]
\* off-axis source at (x,y)
ORe(si, s, k, x, y, ev) == ((3*si + 5*s + 7*k + 4 + x) % 9) - 3 + (IF ev THEN 2 ELSE 0)
OIm(si, s, k, x, y, ev) == ((2*si + 3*s + 5*k + 1 + 2*y) % 8) - 4
OSq(si, s, k, x, y, ev) == ORe(si, s, k, x, y, ev)*ORe(si, s, k, x, y, ev)
                            + OIm(si, s, k, x, y, ev)*OIm(si, s, k, x, y, ev)
\* weights of the piston modes are those of the sub-bands, end points halved for
\* the perfect estimator; over PDen
PW(ns, perfect, si) == IF ns = 1 THEN 2 ELSE IF perfect /\ si \in {0, ns-1} THEN 1 ELSE 2
PDen(ns, perfect) == IF ns = 1 THEN 2 ELSE IF perfect THEN 2*ns-2 ELSE 2*ns
OffaxisImage(ns, perfect, nst, k, x, y, ev) ==
   LET R[i \in 0..(ns*nst)] == IF i = 0 THEN 0
         ELSE LET si == (i-1) \div nst
                  s == (i-1) % nst
              IN R[i-1] + PW(ns, perfect, si)*OSq(si, s, k, x, y, ev)
   IN R[ns*nst]
=============================================================================
