--------------------------- MODULE ResampleModel ----------------------------
(* A map that is moved, turned and rescaled step by step; a field that meets  *)
(* elements one after another; the segments of an aperture.                   *)
EXTENDS Resample, FiniteSets, TLC, Json
CONSTANTS MaxOps, Kinds, Values, Ratios, MaxRings
VARIABLES part, p, prog, moved
vars == <<part, p, prog, moved>>
N == 8
\* every point of this map has its own value
M == [y \in 1..7 |-> [x \in 1..9 |-> 10*y + x]]
Grid == 0..(N-1)
Start(a, b) == [a |-> a, b |-> b, xc |-> Centre(M, b)[1], yc |-> Centre(M, b)[2], sx |-> 0, sy |-> 0, q |-> 0, f |-> 1]
Init == \/ part = "place" /\ \E r \in Ratios : p = Start(r[1], r[2])
           /\ prog = <<>> /\ moved = <<0, 0>>
        \/ part = "field" /\ p = Start(1, 1) /\ prog = <<>> /\ moved = <<0, 0>>
        \/ part = "rings" /\ \E k \in 0..MaxRings : p = [Start(1, 1) EXCEPT !.f = k] /\ prog = <<>> /\ moved = <<0, 0>>
\* one step of the beam
Move(dx, dy) == /\ p.q = 0 /\ p' = [p EXCEPT !.sx = @ + dx*p.a, !.sy = @ + dy*p.a]
                /\ moved' = <<moved[1] + dx, moved[2] + dy>>
Turn == p' = [p EXCEPT !.q = (@ + 1) % 4] /\ moved' = moved
Scale(k) == p' = [p EXCEPT !.f = @*k] /\ moved' = moved
Centred(dx, dy) == p.q = 0 /\ p' = [p EXCEPT !.xc = @ + dx*p.b, !.yc = @ + dy*p.b] /\ moved' = moved
Next == \/ /\ part = "place" /\ Len(prog) < MaxOps /\ part' = part
           /\ \/ \E d \in {<<1, 0>>, <<0, 1>>, <<-2, 1>>} : Move(d[1], d[2]) /\ prog' = Append(prog, <<"move", d[1], d[2]>>)
              \/ Turn /\ prog' = Append(prog, <<"turn", 1, 0>>)
              \/ \E k \in {-1, 2} : Scale(k) /\ prog' = Append(prog, <<"scale", k, 0>>)
              \/ \E d \in {<<1, 0>>, <<-1, 2>>} : Centred(d[1], d[2]) /\ prog' = Append(prog, <<"centre", d[1], d[2]>>)
        \/ /\ part = "field" /\ Len(prog) < MaxOps /\ UNCHANGED <<part, p, moved>>
           /\ \E k \in Kinds, v \in Values : (k = "divide" => v \in {-1, 1}) /\ prog' = Append(prog, <<k, v>>)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------ placement
Val(pp, i, j) == Placed(M, pp, N, i, j)
Known(pp) == {<<i, j>> \in Grid \X Grid : Val(pp, i, j) # Open}
\* without moves, the centre of the map is on the axis
OnAxis == (part = "place" /\ moved = <<0, 0>>) =>
            Val(p, N \div 2, N \div 2) = p.f*M[Edge(p.yc \div p.b, 7)+1][Edge(p.xc \div p.b, 9)+1]
\* moving by whole steps moves the picture
Moves == (part = "place" /\ p.q = 0) =>
           LET z == [p EXCEPT !.sx = 0, !.sy = 0]
           IN \A i \in Grid, j \in Grid : (i - moved[1] \in Grid /\ j - moved[2] \in Grid) => Val(p, i, j) = Val(z, i - moved[1], j - moved[2])
\* four quarter turns are none; a turn keeps the distance from the axis
Turns == part = "place" => \A i \in 1..(N-1), j \in 1..(N-1) :
           LET s == Turned(p.q, i - (N \div 2), j - (N \div 2))
               t == Turned((4 - p.q) % 4, s[1], s[2])
           IN t = <<i - (N \div 2), j - (N \div 2)>>
\* a picture and its negative
Linear == part = "place" => \A i \in Grid, j \in Grid :
            Val([p EXCEPT !.f = -p.f], i, j) = IF Val(p, i, j) = Open THEN Open ELSE -Val(p, i, j)
\* the finer of two grids agrees with the coarser where they meet
Finer == (part = "place" /\ p.a = 1 /\ p.q = 0 /\ p.b = 1) =>
            LET fine == [p EXCEPT !.b = 2, !.xc = 2*@, !.yc = 2*@, !.sx = 2*@, !.sy = 2*@]
            IN \A i \in 2..5, j \in 2..5 : Val(fine, 2*i - 4, 2*j - 4) = Val(p, i, j)
\* ------------------------------------------------------------ fields
Zs == {<<1, 0>>, <<2, -1>>}
Acted(z) == Through(z, prog)
Phases(s) == \A i \in 1..Len(s) : s[i][1] \in {"phase", "surface", "divide"}
Norm(z) == z[1]*z[1] + z[2]*z[2]
\* phases conserve energy
Energy == (part = "field" /\ Phases(prog)) => \A z \in Zs : Norm(Acted(z)) = Norm(z)
\* without additions the order of elements does not matter
Commute == (part = "field" /\ \A i \in 1..Len(prog) : prog[i][1] # "add") =>
             \A z \in Zs : Through(z, [i \in 1..Len(prog) |-> prog[Len(prog)+1-i]]) = Acted(z)
\* a surface undoes the wavefront of the same height
Undone == part = "field" => \A z \in Zs, v \in Values : Act(Act(Acted(z), "phase", v), "surface", v) = Acted(z)
Superpose == (part = "field" /\ \A i \in 1..Len(prog) : prog[i][1] # "add") =>
               LET u == Acted(<<1, 0>>)
                   v == Acted(<<1, -1>>)
                   w == Acted(<<2, -1>>)
               IN w = <<u[1]+v[1], u[2]+v[2]>>
\* ------------------------------------------------------------ segments
Here(s) == {s[i] : i \in 1..Len(s)}
Sixth(c) == \* turned by a sixth: x' = (x - h)/2, h' = (3x + h)/2 in these units
            <<(c[1] - c[2]) \div 2, (3*c[1] + c[2]) \div 2>>
Rings3 == part = "rings" => LET s == Segments(p.f)
                            IN /\ Len(s) = 3*p.f*(p.f+1) + 1
                               /\ Cardinality(Here(s)) = Len(s)
                               /\ <<0, 0>> \in Here(s)
                               /\ {Sixth(c) : c \in Here(s)} = Here(s)
                               /\ \A k \in 1..Len(s) : s[k][1]*s[k][1]*3 + s[k][2]*s[k][2] <= 4*p.f*p.f
Emit == Len(prog) <= MaxOps => PrintT("@@SCN " \o ToJson([part |-> part, p |-> p, prog |-> prog]))
=============================================================================
