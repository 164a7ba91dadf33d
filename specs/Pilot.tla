-------------------------------- MODULE Pilot --------------------------------
(* Free-space propagation steered by a Gaussian pilot beam.  Distances are   *)
(* in units of the initial Rayleigh distance, samplings in units of the      *)
(* initial one.  The complex beam parameter q = (z - waist) + i*Rayleigh is  *)
(* the exact rational (x + i y)/d.  The reference surface is flat within a   *)
(* Rayleigh distance of the waist (or where a flat one was asked for), and a *)
(* sphere centred on the waist elsewhere.  The sampling changes only between *)
(* the two: spherical = K * distance / flat, where K is a constant of the    *)
(* grid; it is the rational s with the exponent k of K.                      *)
EXTENDS Integers, Sequences
AbsZ(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN AbsZ(a) ELSE Gcd(b, a % b)
Red2(n, d) == LET g == Gcd(n, d) IN [n |-> n \div g, d |-> d \div g]
Red3(x, y, d) == LET g == Gcd(Gcd(AbsZ(x), AbsZ(y)), d) IN [x |-> x \div g, y |-> y \div g, d |-> d \div g]
\* rationals n/d with d > 0
Mul(a, b) == LET p == Red2(a.n, b.d) r == Red2(b.n, a.d) IN [n |-> p.n * r.n, d |-> p.d * r.d]
Inv(a) == IF a.n > 0 THEN [n |-> a.d, d |-> a.n] ELSE [n |-> -a.d, d |-> -a.n]
AbsR(a) == [n |-> AbsZ(a.n), d |-> a.d]
Add(a, b) == Red2((a.n * b.d) + (b.n * a.d), a.d * b.d)

\* a beam advanced by the distance t and refracted by the focal length f
Advance(q, t) == Red3((q.x * t.d) + (t.n * q.d), q.y * t.d, q.d * t.d)
Refract(q, f) == LET A == (f.n * q.d) - (f.d * q.x)
                     B == f.d * q.y
                     s == IF f.n < 0 THEN -1 ELSE 1
                 IN Red3(f.n * ((q.x * A) - (q.y * B)), f.n * ((q.x * B) + (q.y * A)), (A*A) + (B*B))
Near(q) == AbsZ(q.x) < q.y
Edge(q) == AbsZ(q.x) = q.y
FromWaist(q) == [n |-> q.x, d |-> q.d]

Begin == [q |-> [x |-> 0, y |-> 1, d |-> 1], z |-> [n |-> 0, d |-> 1], flat |-> TRUE, k |-> 0, s |-> [n |-> 1, d |-> 1]]
\* the sampling on the other kind of surface at the distance r from the waist
Other(st, r) == [st EXCEPT !.k = 1 - @, !.s = Mul(AbsR(r), Inv(@))]
\* the state brought to the waist on a flat surface
AtWaist(st) == IF st.flat THEN st ELSE [Other(st, FromWaist(st.q)) EXCEPT !.flat = TRUE]
Go(st, t, plane) ==
    LET q2 == Advance(st.q, t)
        w  == AtWaist(st)
        sph == ~Near(q2) /\ ~plane
        u  == IF sph THEN [Other(w, FromWaist(q2)) EXCEPT !.flat = FALSE] ELSE w
    IN [u EXCEPT !.q = q2, !.z = Add(st.z, t)]
Lens(st, f) == LET q2 == Refract(st.q, f) IN [st EXCEPT !.q = q2, !.flat = Near(q2)]
Step(st, op) == CASE op[1] = "move"  -> Go(st, [n |-> op[2], d |-> op[3]], FALSE)
                  [] op[1] = "plane" -> Go(st, [n |-> op[2], d |-> op[3]], TRUE)
                  [] op[1] = "lens"  -> Lens(st, [n |-> op[2], d |-> op[3]])
                  [] OTHER -> st
RECURSIVE RunFrom(_, _, _)
RunFrom(st, prog, i) == IF i > Len(prog) THEN st ELSE RunFrom(Step(st, prog[i]), prog, i+1)
Run(prog) == RunFrom(Begin, prog, 1)
=============================================================================
