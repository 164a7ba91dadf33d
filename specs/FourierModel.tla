---------------------------- MODULE FourierModel ----------------------------
(* Programs of free-space steps, and configurations of one transform.        *)
EXTENDS Fourier, TLC, Json
CONSTANTS Steps, Depth, Sizes, OutSizes, Qs
VARIABLES kind, pos, prog
vars == <<kind, pos, prog>>
Probe(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = 1 /\ j = n THEN <<1, 1>> ELSE IF i = n THEN <<0, j>> ELSE <<0, 0>>]]

Init == kind \in {"travel", "mft"} /\ pos = 0 /\ prog = <<>>
Move == /\ kind = "travel" /\ Len(prog) < Depth
        /\ \E d \in Steps : pos' = pos + d /\ prog' = Append(prog, d)
        /\ UNCHANGED kind
Shape == /\ kind = "mft" /\ prog = <<>>
         /\ \E n \in Sizes, r \in OutSizes, c \in OutSizes, qv \in Qs, qh \in Qs, cen \in {"pixel", "interpixel"} :
              /\ Wholes(n, n, r, c, qv, qh, cen)
              /\ prog' = <<n, r, c, qv, qh, IF cen = "pixel" THEN 0 ELSE 1>>
         /\ UNCHANGED <<kind, pos>>
Next == Move \/ Shape \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Scale(a, k) == [i \in 1..4 |-> [j \in 1..4 |-> <<k*a[i][j][1], k*a[i][j][2]>>]]
Power(a) == LET S[k \in 0..16] == IF k = 0 THEN 0 ELSE
                 LET z == a[((k-1) \div 4)+1][((k-1) % 4)+1] IN S[k-1] + z[1]*z[1] + z[2]*z[2]
            IN S[16]
\* only the total distance counts, steps back undo steps forth, power is kept
Additive == (kind = "travel" /\ Len(prog) = 2) =>
    Travel(Travel(Probe(4), prog[1]), prog[2]) = Scale(Travel(Probe(4), pos), 16)
Conserved == kind = "travel" => Power(Travel(Probe(4), pos)) = 256*Power(Probe(4))
\* twice the transform on a full grid of four samples is a half turn
HalfTurn == Transform(Transform(Probe(4), 4, 4, 1, 1, "pixel"), 4, 4, 1, 1, "pixel")
            = [i \in 1..4 |-> [j \in 1..4 |-> LET z == Probe(4)[((5-i) % 4)+1][((5-j) % 4)+1]
                                             IN <<16*z[1], 16*z[2]>>]]
Emit == (prog # <<>> /\ (kind = "mft" \/ Len(prog) = Depth)) => PrintT("@@SCN " \o ToJson([kind |-> kind, prog |-> prog]))
=============================================================================
