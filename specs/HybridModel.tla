---------------------------- MODULE HybridModel -----------------------------
EXTENDS ThinFilm, Hybrid, TLC, Json, FiniteSets
CONSTANTS MaxFilms, Indices, MaxPokes, MaxRequests, Requests
VARIABLES part, n0, ns, films, v, pokes, history, files
vars == <<part, n0, ns, films, v, pokes, history, files>>

Init == /\ part \in {"films", "mask", "tables"}
        /\ n0 \in (IF part = "films" THEN {1, 2} ELSE {1}) /\ ns \in (IF part = "films" THEN Indices ELSE {1})
        /\ films = <<>> /\ v = [i \in 1..3 |-> 0] /\ pokes = <<>> /\ history = <<>> /\ files = {}
Coat == /\ part = "films" /\ Len(films) < MaxFilms
        /\ \E n \in Indices, e \in 0..7 : films' = Append(films, <<n, e>>)
        /\ UNCHANGED <<part, n0, ns, v, pokes, history, files>>
\* three actuators of a layer on a board of 4 x 3 pixels
Box == <<<<1, 2>>, <<2, 4>>>>
Acts == [i \in 1..3 |-> [v |-> v[i], gain |-> 1, x |-> i-1, y |-> (IF i = 2 THEN 1 ELSE 0), box |-> Box]]
Poke == /\ part = "mask" /\ Len(pokes) < MaxPokes
        /\ \E i \in 1..3, d \in {-3, 1, 2, 5} :
             v' = [v EXCEPT ![i] = @ + d] /\ pokes' = Append(pokes, <<i, d>>)
        /\ UNCHANGED <<part, n0, ns, films, history, files>>
\* tables are kept in files and found again
Request == /\ part = "tables" /\ Len(history) < MaxRequests
           /\ \E r \in Requests : history' = Append(history, r) /\ files' = files \cup {r}
           /\ UNCHANGED <<part, n0, ns, films, v, pokes>>
Next == Coat \/ Poke \/ Request
Spec == Init /\ [][Next]_vars

M == Stack(films)
Unimodular == M.a*M.d + M.b*M.c = Scale2(M)
Energy == Sq(Up(M, n0, ns)) + Passed(M, n0, ns) = Sq(Down(M, n0, ns))
\* from behind the same power gets through
Reversed == LET RECURSIVE Rev(_)
                Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), s[1])
                K == Stack(Rev(films))
            IN K.a = M.d /\ K.d = M.a /\ K.b = M.b /\ K.c = M.c
               /\ Sq(Down(K, ns, n0)) = Sq(Down(M, n0, ns))
Absent(s, i) == [k \in 1..(Len(s)-1) |-> IF k < i THEN s[k] ELSE s[k+1]]
Same(m, k, sg) == Up(m, n0, ns) = <<sg*Up(k, n0, ns)[1], sg*Up(k, n0, ns)[2]>>
               /\ Down(m, n0, ns) = <<sg*Down(k, n0, ns)[1], sg*Down(k, n0, ns)[2]>>
NoFilm == \A i \in 1..Len(films) : films[i][2] % 4 = 0 => Same(M, Stack(Absent(films, i)), Cos8(films[i][2]))
\* two films of one material are one thicker film (up to the common scale)
Merged == \A i \in 1..(Len(films)-1) : films[i][1] = films[i+1][1] =>
  LET K == Stack([Absent(films, i) EXCEPT ![i] = <<films[i][1], (films[i][2] + films[i+1][2]) % 8>>])
      f == Scale2(M) \div Scale2(K)
  IN /\ Scale2(M) % Scale2(K) = 0
     /\ Sq(Up(M, n0, ns)) = f*Sq(Up(K, n0, ns)) /\ Sq(Down(M, n0, ns)) = f*Sq(Down(K, n0, ns))
     /\ LET u == Up(M, n0, ns)
            d == Down(M, n0, ns)
            u1 == Up(K, n0, ns)
            d1 == Down(K, n0, ns)
        IN u[1]*d1[1] - u[2]*d1[2] = d[1]*u1[1] - d[2]*u1[2] /\ u[1]*d1[2] + u[2]*d1[1] = d[1]*u1[2] + d[2]*u1[1]
Matched == ((\A i \in 1..Len(films) : films[i][1] = n0) /\ ns = n0) => Up(M, n0, ns) = <<0, 0>>
\* a film of the medium in front only changes phases
Invisible == (Len(films) > 0 /\ films[1][1] = n0) =>
  LET K == Stack(Tail(films)) IN Sq(Up(M, n0, ns))*Scale2(K) = Sq(Up(K, n0, ns))*Scale2(M)

Tab == [t0 |-> 2, dt |-> 3, n |-> 4]
Pixels == (0..3) \X (0..2)
H(p) == Height(Acts, p[1], p[2])
OneNearest == part = "mask" => \A p \in Pixels :
  LET ks == {k \in 0..3 : Nearest(Tab, H(p), k)} IN Cardinality(ks) \in {1, 2}
Superposed == part = "mask" => \A p \in Pixels :
  SumAt(Acts, p[1], p[2]) = SumAt(<<Acts[1]>>, p[1], p[2]) + SumAt(<<Acts[3], Acts[2]>>, p[1], p[2])
Reach == part = "mask" => \A p \in Pixels : (p[1] = 0 /\ v[1] = 0) => H(p) = 0
\* a table found again is the one asked for
Answer(r) == r
Honest == part = "tables" => (\A i \in 1..Len(history) : Answer(history[i]) = history[i] /\ history[i] \in files)
Emit == /\ (part = "films" /\ Len(films) = MaxFilms /\ (films[1][2] + 3*films[MaxFilms][2] + films[2][1]) % 5 = ns)
           => PrintT("@@SCN " \o ToJson([part |-> "films", n0 |-> n0, ns |-> ns, films |-> films]))
        /\ (part = "mask" /\ Len(pokes) = MaxPokes /\ v[1] # 0 /\ v[3] # 0) => PrintT("@@SCN " \o ToJson([part |-> "mask", pokes |-> pokes]))
        /\ (part = "tables" /\ Len(history) = MaxRequests) => PrintT("@@SCN " \o ToJson([part |-> "tables", history |-> history]))
=============================================================================
