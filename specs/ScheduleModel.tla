--------------------------- MODULE ScheduleModel ----------------------------
(* Decodes a schedule row by row, as a machine that only keeps the iteration *)
(* counter, and checks that what it has produced is what the rows mean.      *)
EXTENDS Schedule, TLC, Json
CONSTANTS MaxRows, Ns, Regs, DmSets
VARIABLES rows, it, relin, grid, reg, dms
vars == <<rows, it, relin, grid, reg, dms>>
Row == {[n |-> a, re |-> b[1], im |-> b[2], dms |-> c, relin |-> d, grid |-> e] :
          a \in Ns, b \in Regs, c \in DmSets, d \in {0, 1}, e \in {0, 1}}
Init == rows = <<>> /\ it = 0 /\ relin = {} /\ grid = {} /\ reg = <<>> /\ dms = <<>>
Rep(x, n) == [i \in 1..n |-> x]
Next == \/ /\ Len(rows) < MaxRows
           /\ \E r \in Row :
              /\ rows' = Append(rows, r)
              /\ it' = it + r.n
              /\ relin' = IF r.relin = 1 THEN relin \cup {it} ELSE relin
              /\ grid' = IF r.grid = 1 THEN grid \cup {it} ELSE grid
              /\ reg' = reg \o Rep(<<r.re, r.im>>, r.n)
              /\ dms' = dms \o Rep({Digits(r.dms)[i] : i \in 1..Len(Digits(r.dms))}, r.n)
        \/ Len(rows) = MaxRows /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Decoded == /\ it = NItr(rows) /\ relin = RelinItrs(rows) /\ grid = GridItrs(rows)
           /\ Len(reg) = it /\ Len(dms) = it
           /\ \A k \in 0..(it-1) : /\ reg[k+1] = <<RegRe(rows, k), RegIm(rows, k)>>
                                   /\ dms[k+1] = Dms(rows, k)
Emit == rows # <<>> => PrintT("@@SCN " \o ToJson([rows |-> rows]))
=============================================================================
