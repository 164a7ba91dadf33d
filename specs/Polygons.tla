------------------------------ MODULE Polygons ------------------------------
(* The list of vertices of a convex polygon may start at any vertex, run     *)
(* either way around, repeat its first vertex at its end and have further    *)
(* vertices along its edges: the polygon it stands for stays the same.       *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Shapes, MaxOps, Grid
VARIABLES shape, vs, closed, ops
vars == <<shape, vs, closed, ops>>

Next1(i, n) == IF i = n THEN 1 ELSE i + 1
Cross(w, i, x, y) ==
  LET a == w[i]
      b == w[Next1(i, Len(w))]
  IN ((b[1] - a[1]) * (y - a[2])) - ((b[2] - a[2]) * (x - a[1]))
Inside(w, x, y) == \/ \A i \in 1..Len(w) : Cross(w, i, x, y) >= 0
                   \/ \A i \in 1..Len(w) : Cross(w, i, x, y) <= 0
RECURSIVE Area2(_, _)
Area2(w, i) == IF i > Len(w) THEN 0
               ELSE LET a == w[i]
                        b == w[Next1(i, Len(w))]
                    IN ((a[1] * b[2]) - (b[1] * a[2])) + Area2(w, i + 1)
\* what three vertices at the start tell about the sense (nothing if they lie on one line)
Turn3(w) == Cross(w, 1, w[3][1], w[3][2])

Init == /\ shape \in Shapes
        /\ vs = shape
        /\ closed = FALSE
        /\ ops = 0
Step == ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED shape
Split == /\ Step /\ ~closed /\ UNCHANGED closed
         /\ \E i \in 1..Len(vs) :
              LET a == vs[i]
                  b == vs[Next1(i, Len(vs))]
                  m == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
              IN /\ (a[1] + b[1]) % 2 = 0 /\ (a[2] + b[2]) % 2 = 0
                 /\ m # a
                 /\ vs' = SubSeq(vs, 1, i) \o <<m>> \o SubSeq(vs, i + 1, Len(vs))
Start == Step /\ ~closed /\ UNCHANGED closed /\ vs' = Tail(vs) \o <<Head(vs)>>
Back == Step /\ UNCHANGED closed /\ vs' = [i \in 1..Len(vs) |-> vs[Len(vs) + 1 - i]]
Close == Step /\ ~closed /\ closed' = TRUE /\ vs' = vs \o <<Head(vs)>>
Next == Split \/ Start \/ Back \/ Close
Spec == Init /\ [][Next]_vars

A(x) == IF x < 0 THEN -x ELSE x
SamePolygon == \A x \in Grid : \A y \in Grid : Inside(vs, x, y) = Inside(shape, x, y)
SameArea == A(Area2(vs, 1)) = A(Area2(shape, 1)) /\ Area2(vs, 1) # 0
\* the first three vertices never contradict the area, but may be silent
StartAgrees == Turn3(vs) = 0 \/ ((Turn3(vs) > 0) = (Area2(vs, 1) > 0))
Emit == PrintT("@@SCN " \o ToJson([vs |-> vs, ops |-> ops, flat |-> Turn3(vs) = 0]))
=============================================================================
