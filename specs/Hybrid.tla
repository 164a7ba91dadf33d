------------------------------- MODULE Hybrid -------------------------------
(* A hybrid mask: a metal and a dielectric layer whose thicknesses are sums   *)
(* of influence functions, looked up in a table of complex transmissions.    *)
(* Thicknesses are integers (quarters of a nanometre).                       *)
EXTENDS Integers, Sequences
\* a layer: actuators [v, gain, x, y, box], box a square of influence values
RECURSIVE SumAt(_, _, _)
Part(a, x, y) == LET n == Len(a.box)
                     i == y - a.y + 1
                     j == x - a.x + 1
                 IN IF i \in 1..n /\ j \in 1..n THEN a.v*a.gain*a.box[i][j] ELSE 0
SumAt(as, x, y) == IF as = <<>> THEN 0 ELSE Part(as[1], x, y) + SumAt(Tail(as), x, y)
\* no layer is thinner than nothing
Height(as, x, y) == LET h == SumAt(as, x, y) IN IF h < 0 THEN 0 ELSE h
\* entries of the table: t0, t0+dt, ... (n of them)
Clamp(t, h) == LET top == t.t0 + (t.n-1)*t.dt
               IN IF h < t.t0 THEN t.t0 ELSE IF h > top THEN top ELSE h
\* the nearest entry; halfway between two either will do
Nearest(t, h, k) == LET d == Clamp(t, h) - (t.t0 + k*t.dt)
                    IN k \in 0..(t.n-1) /\ 2*(IF d < 0 THEN -d ELSE d) <= t.dt
=============================================================================
