------------------------------ MODULE External ------------------------------
(* What is asked of an external prescription that stands for the full model. *)
(* One run is [w, a, b, off, fpm, pol]: the distinct wavelength, the command  *)
(* given to each mirror (-1: mirror not used), whether the source is moved    *)
(* for the normalisation, whether the mask is in, the polarisation, and the   *)
(* nanometres of two Zernike modes put in.                                    *)
EXTENDS Spectrum
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
Keys(c) == SortSet({Lam(c.ns, c.nw, TRUE, si, wi) : si \in 0..(c.ns-1), wi \in 0..(c.nw-1)})
RankOf(c, si, wi) == (CHOOSE i \in 1..Len(Keys(c)) : Keys(c)[i] = Lam(c.ns, c.nw, TRUE, si, wi)) - 1
\* the average polarisation, for the perfect estimate
Average(S) == IF S = {0} THEN 0 ELSE IF S = {-1, 1} THEN 5 ELSE IF S = {-2, 2} THEN 6 ELSE 10
Pols(c) == {c.pols[i] : i \in 1..Len(c.pols)}
\* the mirrors of the Roman models are always there
Cmd(c, st, d) == IF c.roman \/ d \in st.used THEN st.cmd[d] ELSE -1
Run(c, st, w, norm, pol) == [w |-> w, a |-> Cmd(c, st, 1), b |-> Cmd(c, st, 2),
     off |-> ~norm /\ ~c.vortex, fpm |-> norm \/ ~c.vortex, pol |-> pol, z |-> c.z]
Flat2(f, n, m) == [i \in 1..(n*m) |-> f[((i-1) \div m), ((i-1) % m)]]
\* the runs an operation asks for, in some order
Bands(c) == 0..(c.ns-1)
Runs(c, st, op) ==
  CASE op.k = "field" -> <<Run(c, st, RankOf(c, op.si, op.wi), TRUE, st.pol)>>
    [] op.k = "raw" -> <<Run(c, st, RankOf(c, op.si, op.wi), FALSE, st.pol)>>
    [] op.k = "norm" -> [i \in 1..(c.ns*c.nw) |-> Run(c, st, RankOf(c, (i-1) \div c.nw, (i-1) % c.nw), FALSE, st.pol)]
    [] op.k = "est" -> [i \in 1..(c.ns*c.nw) |-> Run(c, st, RankOf(c, (i-1) \div c.nw, (i-1) % c.nw), TRUE, Average(Pols(c)))]
    [] op.k = "sub" -> [i \in 1..(c.nw*Len(c.pols)) |->
          Run(c, st, RankOf(c, op.si, (i-1) \div Len(c.pols)), TRUE, c.pols[((i-1) % Len(c.pols)) + 1])]
    \* side by side every distinct wavelength is run once
    [] op.k = "band" -> LET np == Len(c.pols) IN
          IF st.par THEN [i \in 1..(Len(Keys(c))*np) |-> Run(c, st, (i-1) \div np, TRUE, c.pols[((i-1) % np) + 1])]
          ELSE [i \in 1..(c.ns*c.nw*np) |-> LET j == (i-1) \div np IN
                  Run(c, st, RankOf(c, j \div c.nw, j % c.nw), TRUE, c.pols[((i-1) % np) + 1])]
    \* once as it is and once with one more unit of each mode
    [] op.k = "sens" -> LET np == Len(c.pols) n == Len(Keys(c))*np IN
          [i \in 1..(3*n) |-> LET j == (i-1) % n  m == (i-1) \div n IN
              [Run(c, st, j \div np, TRUE, c.pols[(j % np) + 1]) EXCEPT !.z = IF m = 0 THEN @ ELSE [@ EXCEPT ![m] = @ + 1]]]
    [] OTHER -> <<>>
\* how an operation changes what the next ones see
After(c, st, op) ==
  CASE op.k = "move" -> [st EXCEPT !.cmd[op.d] = @ + 1]
    [] op.k = "use" -> [st EXCEPT !.used = op.dms]
    [] op.k = "par" -> [st EXCEPT !.par = ~@]
    [] op.k = "est" -> [st EXCEPT !.pol = Average(Pols(c))]
    [] OTHER -> st
=============================================================================
