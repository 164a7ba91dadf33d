--------------------------- MODULE DarkHoleModel ----------------------------
(* Zones are added one by one; the region is their union.  Checks the        *)
(* geometry itself: sides are rotations of each other, two sides are the     *)
(* union of one and its opposite, a smaller scoring zone lies within.        *)
EXTENDS DarkHole, TLC, Json, Randomization
CONSTANTS Shapes, Names, Clocks, Halves, Radii, Offs, MaxZ, N
VARIABLES zs, sc, cen
vars == <<zs, sc, cen>>

Zone(sh, sd, c, h, r, o) == [shape |-> sh, side |-> sd, clk |-> c, half |-> h,
                             ri |-> r[1], ro |-> r[2], xo |-> o[1], yo |-> o[2]]
Init == zs = <<>> /\ sc = <<>> /\ cen \in {"pixel", "interpixel"}
Add == /\ Len(zs) < MaxZ
       /\ \E sh \in Shapes, sd \in Names, c \in Clocks, h \in Halves, r \in Radii, o \in Offs :
            /\ zs' = Append(zs, Zone(sh, sd, c, h, r, o))
            /\ \E d \in {0, 2} : sc' = Append(sc, <<r[1] + d, r[2] - d>>)
       /\ UNCHANGED cen
Next == Add \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars

G == {<<Coord(i, N, cen), Coord(j, N, cen)>> : i \in 0..(N-1), j \in 0..(N-1)}
Last == zs[Len(zs)]
Score == [i \in 1..Len(zs) |-> [zs[i] EXCEPT !.ri = sc[i][1], !.ro = sc[i][2]]]
\* a zone contains what it contains without the others
Union == zs # <<>> => \A g \in G : Shifted(Last, g[1], g[2]) <= InAny(zs, g[1], g[2])
ScoreWithin == zs # <<>> => \A g \in G :
                  InAny(Score, g[1], g[2]) = 1 => InAny(zs, g[1], g[2]) >= 0
Opposite == zs # <<>> =>
  LET z == Last
      one == IF z.side \in LRNames THEN <<"r", "l">> ELSE <<"t", "b">>
  IN TwoSided(z.side) => \A g \in G :
       LET a == Shifted([z EXCEPT !.side = one[1]], g[1], g[2])
           b == Shifted([z EXCEPT !.side = one[2]], g[1], g[2])
           m == Shifted(z, g[1], g[2])
       IN (m # MaxS({a, b})) => (m = 1 /\ MaxS({a, b}) = 0)
\* turning the zone by a quarter turn is turning the plane
QuarterTurn == zs # <<>> =>
  LET z == [Last EXCEPT !.xo = 0, !.yo = 0]
      c == Turn(<<z.clk[1], z.clk[2]>>, <<0, 1>>)
      t == [z EXCEPT !.clk = <<c[1], c[2], z.clk[3]>>]
  IN \A g \in G : Shifted(t, -g[2], g[1]) = Shifted(z, g[1], g[2])
Emit == zs # <<>> => PrintT("@@SCN " \o ToJson([zs |-> zs, sc |-> sc, cen |-> cen]))
=============================================================================
