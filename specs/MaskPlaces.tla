----------------------------- MODULE MaskPlaces -----------------------------
(* Design model: two requests for the same shape, placed differently.  The   *)
(* first is placed by the identity, then operations turn, shift, half-turn   *)
(* the second; the model says where every point of the shape must be found.  *)
(* Also the numbering of the segments of a hexagonal mirror.                 *)
EXTENDS Masks, TLC, Json
CONSTANTS Shifts, MaxOps, Rings
VARIABLES r, cen, ops
vars == <<r, cen, ops>>
Home == [q |-> 0, sx |-> 0, sy |-> 0, rot |-> FALSE]
Init == r = Home /\ cen \in {"pixel", "interpixel"} /\ ops = 0
Turn == r' = [r EXCEPT !.q = (@ + 1) % 4] /\ UNCHANGED cen
Shift == \E s \in Shifts : r' = [r EXCEPT !.sx = @ + s[1], !.sy = @ + s[2]] /\ UNCHANGED cen
Half == r' = [r EXCEPT !.rot = ~@] /\ UNCHANGED cen
\* half a pixel between the two centerings
Between == /\ r' = [r EXCEPT !.sx = @ + 1, !.sy = @ + 1]
           /\ cen' = IF cen = "pixel" THEN "interpixel" ELSE "pixel"
\* the pixel centres that the array takes of the shape: all even or all odd
Class == (r.sx + (IF cen = "pixel" THEN 0 ELSE 1)) % 2
Kept == [][Class' = Class]_vars
Next == ops < MaxOps /\ ops' = ops + 1 /\ (Turn \/ Shift \/ Half \/ Between)
Spec == Init /\ [][Next]_vars

Some == {<<0, 0>>, <<2, -4>>, <<7, 3>>, <<-5, 11>>}
\* a point goes to one place and comes back from it
Inverse == \A p \in Some : ToShape(r, OfShape(r, p)) = p /\ OfShape(r, ToShape(r, p)) = p
\* distances are kept
Rigid == \A p, s \in Some :
  LET a == OfShape(r, p)
      b == OfShape(r, s)
  IN ((a[1] - b[1]) * (a[1] - b[1])) + ((a[2] - b[2]) * (a[2] - b[2]))
     = ((p[1] - s[1]) * (p[1] - s[1])) + ((p[2] - s[2]) * (p[2] - s[2]))
\* a half turn is two quarter turns of shape and shift
HalfTurn == \A p \in Some :
  OfShape([r EXCEPT !.rot = TRUE], p)
  = OfShape([r EXCEPT !.rot = FALSE, !.q = (@ + 2) % 4, !.sx = -@, !.sy = -@], p)
\* pixel centres fall on pixel centres of the shape
OnGrid == (Ab(r.sx) % 2 = Ab(r.sy) % 2)
          /\ \A i, j \in 0..3 : LET p == ToShape(r, <<HalfPixels(i, 4, cen), HalfPixels(j, 4, cen)>>)
                                IN Ab(p[1]) % 2 = Class /\ Ab(p[2]) % 2 = Class

Segs(n) == LET s == Segments(n) IN {s[i] : i \in 1..Len(s)}
Numbered == \A n \in Rings :
  /\ Len(Segments(n)) = Count3(n)
  /\ Cardinality(Segs(n)) = Count3(n)
  /\ \A p \in Segs(n) : (p[1] + p[2]) % 2 = 0 /\ ((3 * p[1] * p[1]) + (p[2] * p[2])) <= 4 * n * n
  \* neighbours in the numbering of a ring are neighbours in the mirror
  /\ \A i \in 1..(6 * n) : n > 0 =>
        LET a == Ring(n)[i]
            b == Ring(n)[(i % (6 * n)) + 1]
        IN <<b[1] - a[1], b[2] - a[2]>> \in {Faces[k] : k \in 1..6}
Emit == PrintT("@@SCN " \o ToJson([r |-> r, cen |-> cen, cls |-> Class]))
=============================================================================
