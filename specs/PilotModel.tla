----------------------------- MODULE PilotModel -----------------------------
(* All programs of lenses and distances up to a length: the pilot beam obeys *)
(* the ray-matrix law, and distances and lenses each add up.                 *)
EXTENDS Pilot, TLC, Json, FiniteSets
CONSTANTS MaxLen, PrintAll
VARIABLES prog, st, m
vars == <<prog, st, m>>
Moves  == {<<"move", 1, 2>>, <<"move", -1, 2>>, <<"move", 2, 1>>, <<"move", -3, 1>>, <<"plane", 3, 1>>, <<"move", 3, 2>>}
Lenses == {<<"lens", 1, 1>>, <<"lens", 3, 1>>, <<"lens", -2, 1>>, <<"lens", 1, 2>>}
Ops == Moves \cup Lenses
\* ray matrices [A B; C D] over a common denominator
Ident == [a |-> 1, b |-> 0, c |-> 0, d |-> 1, g |-> 1]
Small(M) == LET g == Gcd(Gcd(Gcd(AbsZ(M.a), AbsZ(M.b)), Gcd(AbsZ(M.c), AbsZ(M.d))), M.g)
            IN [a |-> M.a \div g, b |-> M.b \div g, c |-> M.c \div g, d |-> M.d \div g, g |-> M.g \div g]
Ray(M, op) == IF op[1] = "lens"
              THEN LET n == op[2] e == op[3] s == IF n < 0 THEN -1 ELSE 1 an == AbsZ(n)
                   IN Small([a |-> M.a*an, b |-> M.b*an, c |-> (M.c*an) - (s*e*M.a), d |-> (M.d*an) - (s*e*M.b), g |-> M.g*an])
              ELSE Small([a |-> (M.a*op[3]) + (op[2]*M.c), b |-> (M.b*op[3]) + (op[2]*M.d), c |-> M.c*op[3], d |-> M.d*op[3], g |-> M.g*op[3]])
\* (A i + B)/(C i + D) = (BD + AC + i(AD - BC))/(C^2 + D^2)
ByRays(M) == Red3((M.b*M.d) + (M.a*M.c), (M.a*M.d) - (M.b*M.c), (M.c*M.c) + (M.d*M.d))

Init == prog = <<>> /\ st = Begin /\ m = Ident
Bounded(s) == s.q.d < 500 /\ AbsZ(s.q.x) < 2000 /\ s.q.y < 2000 /\ s.s.n < 2000 /\ s.s.d < 2000 /\ AbsZ(s.z.n) < 2000
Next == /\ Len(prog) < MaxLen
        /\ \E op \in Ops :
             LET s2 == Step(st, op) IN
             /\ Bounded(s2) /\ ~Edge(s2.q)
             /\ IF op[1] = "lens" /\ Len(prog) > 0 THEN prog[Len(prog)] # op ELSE TRUE
             /\ prog' = Append(prog, op) /\ st' = s2 /\ m' = Ray(m, op)
Spec == Init /\ [][Next]_vars

\* the beam follows the ray matrices, and its Rayleigh distance stays positive
RayMatrices == st.q = ByRays(m) /\ st.q.y > 0
\* flat near the waist; spherical elsewhere unless a flat one was asked for
SurfaceDictated == /\ Near(st.q) => st.flat
                   /\ ~st.flat => ~Near(st.q)
                   /\ (st.flat /\ ~Near(st.q)) => (prog # <<>> /\ prog[Len(prog)][1] = "plane")
\* distances add up, in whatever steps, and going back restores the state
MovesAdd == \A a \in Moves, b \in Moves :
               LET t == Add([n |-> a[2], d |-> a[3]], [n |-> b[2], d |-> b[3]])
                   one == Step(st, <<b[1], t.n, t.d>>)
                   two == Step(Step(st, a), b)
               IN (~Edge(Step(st, a).q) /\ ~Edge(two.q)) => one = two
Back == \A a \in Moves : (a[1] = "move" /\ ~Edge(Step(st, a).q)) =>
             Step(Step(st, a), <<"move", -a[2], a[3]>>) = (IF st.flat /\ ~Near(st.q) THEN Step(st, <<"move", 0, 1>>) ELSE st)
\* lenses in contact add up in power, and the opposite lens takes one out
LensesAdd == \A a \in Lenses, b \in Lenses :
               LET p == Add([n |-> IF a[2] < 0 THEN -a[3] ELSE a[3], d |-> AbsZ(a[2])], [n |-> IF b[2] < 0 THEN -b[3] ELSE b[3], d |-> AbsZ(b[2])])
               IN p.n # 0 => Step(Step(st, a), b) = Step(st, <<"lens", Inv(p).n, Inv(p).d>>)
Opposite == \A a \in Lenses : LET r == Step(Step(st, a), <<"lens", -a[2], a[3]>>)
                              IN r.q = st.q /\ r.s = st.s /\ r.k = st.k /\ r.z = st.z
\* the sampling on a flat surface does not depend on where it is
FlatSampling == \A a \in Moves, b \in Moves : LET r1 == Step(st, a) r2 == Step(st, b) IN (r1.flat /\ r2.flat) => (r1.s = r2.s /\ r1.k = r2.k)
Laws == Len(prog) <= 2 => (MovesAdd /\ Back /\ LensesAdd /\ Opposite /\ FlatSampling)
Kinds(p) == Cardinality({p[i][1] : i \in 1..Len(p)})
Emit == (Len(prog) = MaxLen /\ (PrintAll \/ Kinds(prog) >= 2)) => PrintT("@@SCN " \o ToJson(prog))
=============================================================================
