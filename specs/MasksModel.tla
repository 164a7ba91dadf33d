----------------------------- MODULE MasksModel -----------------------------
(* Design model: the geometry of Masks obeys what the masks promise.  Every  *)
(* state is one mask; Next moves it by whole pixels, turns it by quarter     *)
(* turns and exchanges the centering.                                        *)
EXTENDS Masks, TLC, Json
CONSTANTS Fams, Rs, Offs, Turns, Openings, Amps, Stretch, Strut, Mags, Cens, NB, N
VARIABLES m, cen
vars == <<m, cen>>

Base == [fam |-> "stop", ro |-> 0, ri |-> 0, st |-> 100, ox |-> 0, oy |-> 0, t |-> None,
         open |-> <<1, 0>>, amp |-> 0, bars |-> <<>>, w |-> 0, nb |-> NB, mag |-> 100]
Init ==
  /\ cen \in Cens
  /\ \/ /\ "stop" \in Fams
        /\ \E r \in Rs : m = [Base EXCEPT !.ro = r[1]]
     \/ /\ "annular" \in Fams
        /\ \E r \in Rs, o \in Offs, a \in Amps, inf \in {FALSE, TRUE} :
             m = [Base EXCEPT !.fam = "annular", !.ro = IF inf THEN 0 ELSE r[1], !.ri = r[2],
                              !.ox = o[1], !.oy = o[2], !.amp = a]
     \/ /\ "bowtie" \in Fams
        /\ \E r \in Rs, o \in Offs, t \in Turns, p \in Openings :
             m = [Base EXCEPT !.fam = "bowtie", !.ro = r[1], !.ri = r[2], !.ox = o[1], !.oy = o[2],
                              !.t = t, !.open = p]
     \/ /\ "lyot" \in Fams
        /\ \E r \in Rs, o \in Offs, t \in Turns, p \in Openings, g \in Mags :
             m = [Base EXCEPT !.fam = "lyot", !.ro = r[1], !.ri = r[2], !.ox = o[1], !.oy = o[2],
                              !.t = t, !.open = p, !.mag = g]
     \/ /\ "simple" \in Fams
        /\ \E r \in Rs, o \in Offs, t \in Turns, b \in Strut, s \in Stretch, h \in {FALSE, TRUE}, w \in {20, 36} :
             m = [Base EXCEPT !.fam = "simple", !.ro = r[1], !.ri = IF h THEN 0 ELSE r[2], !.ox = o[1], !.oy = o[2],
                              !.t = t, !.bars = b, !.w = w, !.st = s]
     \/ /\ "ellipse" \in Fams
        /\ \E r \in Rs, o \in Offs, t \in Turns, s \in Stretch, g \in Mags :
             m = [Base EXCEPT !.fam = "ellipse", !.ro = r[1], !.ox = o[1], !.oy = o[2],
                              !.t = t, !.st = s, !.mag = g]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

P == {<<Centre(i, N, cen), Centre(j, N, cen)>> : i \in 0..(N-1), j \in 0..(N-1)}
In(mm, x, y) == \A i \in 1..Len(Features(mm)) :
                  LET f == Features(mm)[i] IN IF f.dark THEN ~InF(f, x, y) ELSE InF(f, x, y)
\* moving the mask by a pixel moves every pixel
Moves == m.fam # "stop" =>
  \A p \in P : In([m EXCEPT !.ox = @ + 16, !.oy = @ - 32], p[1] + 16, p[2] - 32) = In(m, p[1], p[2])
\* turning it by a quarter turn about the centre of the array turns the array
Quarter == m.fam \in {"bowtie", "lyot", "simple", "ellipse"} =>
  LET q == [m EXCEPT !.t = Turned(@, <<0, 1, 1>>), !.ox = -m.oy, !.oy = m.ox]
  IN \A p \in P : In(q, -p[2], p[1]) = In(m, p[1], p[2])
\* a mask turned about its own centre stays in its outer radius
Within == \A p \in P : (In(m, p[1], p[2]) /\ m.fam # "annular") =>
            (Ab(p[1] - m.ox) <= 2 * m.ro) /\ (Ab(p[2] - m.oy) <= 2 * m.ro)
\* the covers of an aperture and of an obscuration of the same shape add up to one
Babinet == LET f == Features(m)[1]
           IN \A p \in P : LET c == Cover(f, p[1], p[2])
                           IN Ab(Trans(f, c) + Trans([f EXCEPT !.dark = ~@, !.amp = 0], c)
                                 - (IF f.dark THEN 1000 + ((c * f.amp) \div 64) ELSE 1000)) <= 1
Emit == PrintT("@@SCN " \o ToJson([m |-> m, cen |-> cen]))
=============================================================================
