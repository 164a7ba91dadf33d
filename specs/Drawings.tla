------------------------------ MODULE Drawings ------------------------------
(* The apertures of known telescopes as drawn: the open share of the unit disc
   (per mille) and, going around at a given radius (thousandths of a diameter),
   the <<direction, width>> of everything in the way (tenths of a degree, the
   direction anticlockwise from the x axis). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Drawing(kind) ==
  CASE kind = "roman" ->
    [open |-> 807, rays |-> <<
     [r |-> 158, tol |-> 30, at |-> << <<314, 380>>, <<1481, 385>>, <<2699, 430>> >>],
     [r |-> 200, tol |-> 7, at |-> << <<106, 105>>, <<514, 100>>, <<1282, 102>>, <<1691, 105>>, <<2479, 100>>, <<2919, 100>> >>],
     [r |-> 300, tol |-> 7, at |-> << <<4, 65>>, <<605, 62>>, <<1194, 65>>, <<1794, 65>>, <<2394, 65>>, <<3005, 62>> >>],
     [r |-> 400, tol |-> 7, at |-> << <<648, 48>>, <<1150, 48>>, <<1842, 48>>, <<2352, 48>>, <<3048, 48>>, <<3555, 48>> >>],
     [r |-> 460, tol |-> 7, at |-> << <<665, 42>>, <<1134, 40>>, <<1861, 40>>, <<2336, 40>>, <<3062, 42>>, <<3536, 40>> >>] >>]
  [] kind = "wfirst" ->
    [open |-> 817, rays |-> <<
     [r |-> 158, tol |-> 30, at |-> << <<760, 138>>, <<1048, 138>>, <<2112, 372>>, <<3286, 380>> >>],
     [r |-> 170, tol |-> 10, at |-> << <<734, 125>>, <<1072, 128>>, <<1970, 132>>, <<2255, 128>>, <<3138, 128>>, <<3434, 135>> >>],
     [r |-> 200, tol |-> 7, at |-> << <<682, 102>>, <<1120, 102>>, <<1909, 105>>, <<2308, 102>>, <<3088, 102>>, <<3494, 105>> >>],
     [r |-> 300, tol |-> 7, at |-> << <<596, 65>>, <<1206, 65>>, <<1806, 65>>, <<2401, 65>>, <<2995, 62>>, <<3596, 65>> >>],
     [r |-> 400, tol |-> 7, at |-> << <<42, 48>>, <<552, 48>>, <<1248, 48>>, <<1758, 48>>, <<2445, 48>>, <<2952, 48>> >>],
     [r |-> 460, tol |-> 7, at |-> << <<61, 40>>, <<538, 42>>, <<1264, 40>>, <<1739, 40>>, <<2462, 42>>, <<2936, 40>> >>] >>]
  [] kind = "luvoirA" ->
    [open |-> 894, rays |-> <<
     [r |-> 200, tol |-> 7, at |-> << <<900, 28>>, <<2516, 30>>, <<2884, 30>> >>],
     [r |-> 300, tol |-> 7, at |-> << <<900, 18>>, <<2534, 20>>, <<2866, 20>> >>],
     [r |-> 400, tol |-> 7, at |-> << <<900, 12>>, <<2544, 15>>, <<2856, 15>> >>],
     [r |-> 490, tol |-> 7, at |-> << <<0, 342>>, <<300, 98>>, <<600, 342>>, <<900, 98>>, <<1200, 342>>, <<1500, 98>>,
                          <<1800, 342>>, <<2100, 98>>, <<2400, 342>>, <<2700, 98>>, <<3000, 342>>, <<3300, 98>> >>] >>]
  [] kind = "luvoirB" ->
    [open |-> 865, rays |-> <<
     [r |-> 200, tol |-> 7, at |-> <<>>],
     [r |-> 460, tol |-> 7, at |-> << <<72, 22>>, <<300, 138>>, <<528, 22>>, <<672, 22>>, <<900, 138>>, <<1128, 22>>,
                          <<1272, 22>>, <<1500, 138>>, <<1728, 22>>, <<1872, 22>>, <<2100, 138>>, <<2328, 22>>,
                          <<2472, 22>>, <<2700, 138>>, <<2928, 22>>, <<3072, 22>>, <<3300, 138>>, <<3528, 22>> >>],
     [r |-> 475, tol |-> 12, at |-> << <<65, 84>>, <<300, 152>>, <<535, 84>>, <<665, 84>>, <<900, 152>>, <<1135, 84>>,
                          <<1265, 84>>, <<1500, 152>>, <<1735, 84>>, <<1865, 84>>, <<2100, 152>>, <<2335, 84>>,
                          <<2465, 84>>, <<2700, 152>>, <<2935, 84>>, <<3065, 84>>, <<3300, 152>>, <<3535, 84>> >>] >>]
Kinds == {"roman", "wfirst", "luvoirA", "luvoirB"}

Dist(a, b) == LET d == (a - b) % 3600 IN IF d > 1800 THEN 3600 - d ELSE d
(* the same things in the way, whatever the starting point, all turned by t *)
Around(seen, drawn, t, tol) ==
  /\ Len(seen) = Len(drawn)
  /\ \A k \in 1..Len(drawn) : \E m \in 1..Len(seen) :
        Dist(seen[m][1], drawn[k][1] + t) <= tol /\ seen[m][2] - drawn[k][2] \in -tol-2..tol+2

(* sense of the drawings: a third (a sixth, a mirror image) of a turn shows the
   same; and nothing overlaps, so that directions are told apart *)
Third(kind) == \A k \in 1..Len(Drawing(kind).rays) : LET a == Drawing(kind).rays[k].at IN Around(a, a, 1200, 60)
Sixth(kind) == \A k \in 1..Len(Drawing(kind).rays) : LET a == Drawing(kind).rays[k].at IN Around(a, a, 600, 10)
Apart(kind) == \A k \in 1..Len(Drawing(kind).rays) : LET a == Drawing(kind).rays[k].at IN
  \A i, j \in 1..Len(a) : i # j => 2*Dist(a[i][1], a[j][1]) > a[i][2] + a[j][2]
ASSUME Third("roman") /\ Sixth("luvoirB") /\ \A k \in Kinds : Apart(k)
=============================================================================
