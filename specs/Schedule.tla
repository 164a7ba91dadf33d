------------------------------ MODULE Schedule ------------------------------
(* The control schedule: a sequence of rows                                  *)
(*   [n |-> iterations, re |-> real part of log10(reg) in thousandths,       *)
(*    im |-> 0/1 ("use the latest best"), dms |-> digits, relin, grid]       *)
(* and what it means for every iteration of the loop.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

RECURSIVE SumN(_, _)
SumN(rows, k) == IF k = 0 THEN 0 ELSE SumN(rows, k-1) + rows[k].n

NItr(rows) == SumN(rows, Len(rows))
\* first iteration (from 0) a row speaks about
RowStart(rows, r) == SumN(rows, r-1)
\* the row that governs iteration k
RowOf(rows, k) == CHOOSE r \in 1..Len(rows) :
                    /\ RowStart(rows, r) <= k
                    /\ k < RowStart(rows, r) + rows[r].n
RelinItrs(rows) == {RowStart(rows, r) : r \in {q \in 1..Len(rows) : rows[q].relin = 1}}
GridItrs(rows)  == {RowStart(rows, r) : r \in {q \in 1..Len(rows) : rows[q].grid = 1}}
RegRe(rows, k) == rows[RowOf(rows, k)].re
RegIm(rows, k) == rows[RowOf(rows, k)].im

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)
Dms(rows, k) == LET d == Digits(rows[RowOf(rows, k)].dms) IN {d[i] : i \in 1..Len(d)}

\* A schedule the loop can follow: every change of the DM set comes with a
\* relinearization, and "use the latest best" is preceded by a grid search.
Followable(rows) ==
  /\ NItr(rows) > 0
  /\ \A k \in 1..NItr(rows)-1 :
        Dms(rows, k) # Dms(rows, k-1) => k \in RelinItrs(rows)
  /\ \A k \in 0..NItr(rows)-1 :
        RegIm(rows, k) = 1 => \E g \in GridItrs(rows) : g <= k
=============================================================================
