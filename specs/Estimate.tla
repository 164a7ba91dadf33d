------------------------------ MODULE Estimate ------------------------------
(* The perfect estimate: for every control mode the field of the full model, *)
(* averaged over the wavelengths of the sub-band.                            *)
EXTENDS Imaging, Modes
\* the list of modes <<sub-band, aberration, star>>, star by star
AllModes(ns, perfect, zs, zero, nst) ==
   LET m == StarModes(ns, perfect, zs, zero, 0)
       n == Len(m)
   IN [i \in 1..(n*nst) |-> <<m[((i-1) % n)+1][1], m[((i-1) % n)+1][2], (i-1) \div n>>]
\* polarisation state standing for the average of the chosen ones
MeanPol(conds) == CASE conds = {0} -> 0
                    [] conds = {-2, -1, 1, 2} \/ conds = {10} -> 10
                    [] conds = {-1, 1} \/ conds = {5} -> 5
                    [] conds = {-2, 2} \/ conds = {6} -> 6
                    [] OTHER -> -99
GRe(r, p, s, z, k) == ((7*r + 3*p + 13*s + 5*k + 2*z + r*z) % 10) - 4
GIm(r, p, s, z, k) == ((5*r + p + 7*s + 2*k + 3*z + r*s) % 7) - 2
\* over LDen
MeanRe(ns, nw, sim, p, m, k) == LET R[i \in 0..nw] == IF i = 0 THEN 0
    ELSE R[i-1] + LW(nw, i-1)*GRe(Rank(ns, nw, sim, m[1], i-1), p, m[3], m[2], k) IN R[nw]
MeanIm(ns, nw, sim, p, m, k) == LET R[i \in 0..nw] == IF i = 0 THEN 0
    ELSE R[i-1] + LW(nw, i-1)*GIm(Rank(ns, nw, sim, m[1], i-1), p, m[3], m[2], k) IN R[nw]
\* intensity of the unaberrated fields in a sub-band, over LDen^2
EstImage(ns, nw, sim, p, nst, si, k) == LET R[i \in 0..nst] == IF i = 0 THEN 0
    ELSE LET x == MeanRe(ns, nw, sim, p, <<si, 1, i-1>>, k)
             y == MeanIm(ns, nw, sim, p, <<si, 1, i-1>>, k)
         IN R[i-1] + x*x + y*y
    IN R[nst]
=============================================================================
