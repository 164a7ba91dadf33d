---------------------------- MODULE ZernikeModel ----------------------------
EXTENDS Zernike, Sensitivity, TLC, Json
CONSTANTS MaxJ, MaxBeam, MaxModes
VARIABLES beam, interpixel, list, obscured, nl, np, field, done
vars == <<beam, interpixel, list, obscured, nl, np, field, done>>
\* highest degree whose values on the disc fit in 32 bits
MaxDegree(b) == <<10, 10, 10, 10, 9, 8, 8, 7, 7, 7>>[b]
Highest(b) == LET n == MaxDegree(b) IN ((n+1)*(n+2)) \div 2

Init == /\ beam \in 4..MaxBeam /\ interpixel \in BOOLEAN
        /\ list \in {<<1>>, <<5, 4>>, <<8, 2, 8>>, <<3, 11, 1>>}
        /\ obscured \in 0..3 /\ nl \in 1..4 /\ np \in 1..2
        /\ field = 0 /\ done = {}
\* the sensitivities: every job adds its aberration, runs and takes it away
\* (field: the aberration now in the entrance field, 0 for none)
Start(z) == /\ field = 0 /\ \E w \in 1..nl, p \in 1..np : <<w, p, z>> \notin done
            /\ field' = z /\ UNCHANGED done
Run(w, p) == /\ <<w, p, field>> \notin done
             /\ done' = done \cup {<<w, p, field>>}
             /\ field' = 0
Small == beam = 4 /\ interpixel /\ obscured = 0 /\ nl <= 2 /\ np <= 2 /\ Len(list) <= 2
Next == Small /\ (\/ \E z \in 1..MaxModes : Start(z)
                  \/ \E w \in 1..nl, p \in 1..np : Run(w, p))
        /\ UNCHANGED <<beam, interpixel, list, obscured, nl, np>>
Spec == Init /\ [][Next]_vars

First == done = {} /\ field = 0 /\ obscured = 0 /\ nl = 1 /\ np = 1 /\ list = <<1>>
Disc == {q \in (-beam..beam) \X (-beam..beam) : q[1]*q[1] + q[2]*q[2] <= beam*beam}
Few == {q \in Disc : (q[1] + 2*q[2]) % 3 = 0}
\* the numbering meets every polynomial once
Numbered == (First /\ beam = 4) =>
  /\ \A j \in 1..MaxJ : LET n == RadialOf(j) IN AzimuthOf(j) \in {m \in 0..n : (n-m) % 2 = 0}
  /\ \A i, j \in 1..MaxJ : (RadialOf(i) = RadialOf(j) /\ AzimuthOf(i) = AzimuthOf(j) /\ Kind(i) = Kind(j)) => i = j
  /\ \A i, j \in 1..MaxJ : i < j => RadialOf(i) < RadialOf(j) \/ (RadialOf(i) = RadialOf(j) /\ AzimuthOf(i) <= AzimuthOf(j))
Top == IF Highest(beam) < MaxJ THEN Highest(beam) ELSE MaxJ
\* on the edge the radial part is one: (R, 0) meets the cosine terms there
Edge == First => \A j \in 1..Top : Poly(j, beam, 0, beam) = (IF Kind(j) = "sin" THEN 0 ELSE Pow(beam, RadialOf(j)))
\* half turn, mirror image and quarter turn
Symmetric == First => \A j \in 1..Top, q \in Few :
  LET m == AzimuthOf(j)
      v == Poly(j, q[1], q[2], beam)
      partner == CHOOSE i \in 1..(Top+1) : IF m = 0 THEN i = j
                   ELSE RadialOf(i) = RadialOf(j) /\ AzimuthOf(i) = m /\ i # j
  IN /\ Poly(j, -q[1], -q[2], beam) = (IF m % 2 = 0 THEN v ELSE -v)
     /\ Poly(j, q[1], -q[2], beam) = (IF Kind(j) = "sin" THEN -v ELSE v)
     /\ (m % 2 = 0) => Poly(j, -q[2], q[1], beam) = (IF m % 4 = 0 THEN v ELSE -v)
     /\ (m % 2 = 1 /\ Kind(j) = "cos") => Poly(j, -q[2], q[1], beam)
            = (IF m % 4 = 1 THEN -1 ELSE 1)*Poly(partner, q[1], q[2], beam)
\* radial parts of one azimuthal order are orthogonal over the disc:
\* the integral of R_n R_n' r dr times a common denominator
Common == 27720*13
Inner(n1, n2, m) ==
  LET RECURSIVE A(_), B(_, _)
      B(k, l) == IF l < 0 THEN 0 ELSE B(k, l-1) + Coef(n1, m, k)*Coef(n2, m, l)*(Common \div (n1-2*k+n2-2*l+2))
      A(k) == IF k < 0 THEN 0 ELSE A(k-1) + B(k, (n2-m) \div 2)
  IN A((n1-m) \div 2)
Orthogonal == (First /\ beam = 4) => \A n1, n2 \in 0..6, m \in 0..6 :
  (m <= n1 /\ m <= n2 /\ (n1-m) % 2 = 0 /\ (n2-m) % 2 = 0 /\ n1 + n2 <= 10 /\ n1 # n2) => Inner(n1, n2, m) = 0
Unit == (First /\ beam = 4) => \A n \in 0..5, m \in 0..5 :
  (m <= n /\ (n-m) % 2 = 0) => Inner(n, n, m) * 2*(n+1) = Common
\* all jobs are of the list, none runs twice, and one aberration is never put
\* on top of another
Complete == done \subseteq Jobs(nl, np, MaxModes)
OneAtATime == field \in 0..MaxModes
Restored == [][field # 0 => field' = 0]_vars
Emit == (done = {} /\ field = 0) => PrintT("@@SCN " \o ToJson([nb |-> beam, inter |-> interpixel, list |-> list, top |-> Top,
                    eps10 |-> obscured, nl |-> nl, np |-> np]))
=============================================================================
