------------------------------- MODULE Optics -------------------------------
(* The orientation of the beam along the coronagraph.  Every relay turns it  *)
(* by half a turn; each mask is applied in the frame of its own plane.  The  *)
(* detector adds a half turn of its own, so a source is seen on its own side *)
(* after an odd number of relays and on the opposite side otherwise.         *)
EXTENDS Integers, Sequences

\* planes: 1 entrance pupil, 2 mirrors, 3 apodizer (and focal-plane mask), 4
\* Lyot stop, 5 final pupil image, imaged on the detector
SumTo(r, k) == LET RECURSIVE F(_)
                   F(i) == IF i = 0 THEN 0 ELSE r[i] + F(i-1)
               IN F(k)
\* half turns (0 or 1) of plane p with respect to the entrance pupil
Turned(rot, r, p) == IF ~rot THEN 0 ELSE SumTo(r, p-1) % 2
\* on which side of the axis the image of a source appears
Side(rot, r) == IF Turned(rot, r, 5) = 1 THEN 1 ELSE -1
=============================================================================
