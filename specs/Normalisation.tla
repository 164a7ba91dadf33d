---------------------------- MODULE Normalisation ----------------------------
(* Intensity in units of the peak of a reference source: the first star,     *)
(* displaced by the normalisation offset.  A state is the place the commands *)
(* and the entrance aberrations are in; the unit of a model is the state its *)
(* normalisation was computed in, whatever happened since.                   *)
EXTENDS Integers, Sequences, FiniteSets
Models == {"full", "compact", "eval"}
\* the state after an operation
Moved(s, op) == CASE op[1] = "move" -> [s EXCEPT !.cmd = op[2]]
                  [] op[1] = "aberrate" -> [s EXCEPT !.ab = 1 - @]
                  [] OTHER -> s
\* the unit after an operation
Unit(u, s, op) == IF op[1] \in {"serial", "parallel"} THEN s ELSE u
=============================================================================
