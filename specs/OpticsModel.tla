---------------------------- MODULE OpticsModel -----------------------------
(* Two beams walk through the planes: one through relays that turn it, one   *)
(* without relays through masks that have been turned instead.  A beam is    *)
(* the list of masks it has met, each with its orientation as seen from the  *)
(* beam, so equal beams up to a turn mean equal fields up to a turn.         *)
EXTENDS Optics, TLC, Json
CONSTANTS MaxRelay
VARIABLES rot, r, apod, plane, a, b
vars == <<rot, r, apod, plane, a, b>>
Init == /\ rot \in BOOLEAN /\ r \in [1..4 -> 0..MaxRelay] /\ apod \in BOOLEAN
        /\ plane = 1
        /\ a = [turn |-> 0, met |-> <<<<"pupil", 0>>>>]
        /\ b = [turn |-> 0, met |-> <<<<"pupil", 0>>>>]
\* masks are fixed in the frame of their plane: seen from the entrance pupil
\* frame of the beam they are turned by the turns of the beam so far
Meet(beam, mask, own) == [beam EXCEPT !.met = Append(@, <<mask, (beam.turn + own) % 2>>)]
MasksAt(p) == CASE p = 2 -> <<"mirrors">> [] p = 3 /\ apod -> <<"apodizer", "fpm">>
                [] p = 3 /\ ~apod -> <<"fpm">> [] p = 4 -> <<"lyot">> [] OTHER -> <<>>
RECURSIVE MeetAll(_, _, _)
MeetAll(beam, ms, own) == IF ms = <<>> THEN beam ELSE MeetAll(Meet(beam, Head(ms), own), Tail(ms), own)
Step == /\ plane < 5 /\ plane' = plane + 1
        /\ LET a1 == [a EXCEPT !.turn = (@ + (IF rot THEN r[plane] ELSE 0)) % 2]
           IN a' = MeetAll(a1, MasksAt(plane+1), 0)
        /\ b' = MeetAll(b, MasksAt(plane+1), Turned(rot, r, plane+1))
        /\ UNCHANGED <<rot, r, apod>>
Next == Step
Spec == Init /\ [][Next]_vars
SameMasksMet == a.met = b.met
TurnPredicted == a.turn = Turned(rot, r, plane)
TwoRelaysAreNone == \A p \in 1..5 : Turned(rot, r, p) = Turned(rot, [i \in 1..4 |-> r[i] % 2], p)
Emit == plane = 5 => PrintT("@@SCN " \o ToJson([rot |-> rot, r |-> r, apod |-> apod,
           turns |-> [p \in 1..5 |-> Turned(rot, r, p)]]))
=============================================================================
