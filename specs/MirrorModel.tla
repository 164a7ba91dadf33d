----------------------------- MODULE MirrorModel ----------------------------
EXTENDS Mirror, TLC, Json
CONSTANTS Sizes, Shifts
VARIABLES n, o, a, b, k, zyx, dx2, dy2
vars == <<n, o, a, b, k, zyx, dx2, dy2>>
Cells == (0..(n-1)) \X (0..(n-1))
M == Proj(a, b, k, zyx)
At(q) == Place(M, n-1+dx2, n-1+dy2, Seat(o, n, q))
Init == /\ n \in Sizes /\ o \in 1..8 /\ a \in Tilts /\ b \in Tilts /\ k \in 0..3
        /\ zyx \in BOOLEAN /\ \E s \in Shifts : dx2 = s[1] /\ dy2 = s[2]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

OneSeatEach == \A q, r \in Cells : Seat(o, n, q) = Seat(o, n, r) => q = r
InArray == \A q \in Cells : Seat(o, n, q) \in Cells
NoOverlap == \A q, r \in Cells : At(q) = At(r) => q = r
\* tilts foreshorten, clocking does not, no configuration mirrors the surface
Foreshortened == Area(M) = 4*Cos2(a)*Cos2(b)
OrderMatters == (zyx /\ ((IF a # 0 THEN 1 ELSE 0) + (IF b # 0 THEN 1 ELSE 0) + (IF k # 0 THEN 1 ELSE 0)) <= 1)
                 => M = Proj(a, b, k, FALSE)
\* turning the commands is clocking the mirror, when the beam is centred on it
TurnIsClocking == (dx2 = 0 /\ dy2 = 0 /\ a = 0 /\ b = 0 /\ o <= 4) =>
  \A q \in Cells : At(q) = Place(Proj(0, 0, k + o - 1, zyx), n-1, n-1, q)
\* moving the beam by a pitch is moving the commands by one
ShiftIsMove == \A q \in Cells : LET s == Seat(o, n, q) IN
  Place(M, n+1+dx2, n-1+dy2, s) = Place(M, n-1+dx2, n-1+dy2, <<s[1], s[2]-1>>)
StepsNearest == \A v \in -9..9, s \in 1..4 : LET q == Steps("round", v, s)*s IN
   /\ 2*(IF v < q THEN q-v ELSE v-q) <= s
   /\ Steps("floor", v, s)*s <= v /\ v <= Steps("ceil", v, s)*s
   /\ Steps("ceil", v, s) - Steps("floor", v, s) <= 1
   /\ Steps("fix", -v, s) = -Steps("fix", v, s)
Emit == PrintT("@@SCN " \o ToJson([n |-> n, o |-> o, a |-> a, b |-> b, k |-> k, zyx |-> zyx,
                                   dx2 |-> dx2, dy2 |-> dy2]))
=============================================================================
