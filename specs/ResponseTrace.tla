--------------------------- MODULE ResponseTrace ----------------------------
EXTENDS TraceLib, Response
VARIABLES seen
vars == <<tid, l, seen>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ seen = {}
Rng(s) == {s[i] : i \in 1..Len(s)}
Dead(k) == Rng(Scn.dead[k])
Ties(k) == Rng(Scn.ties[k])
Zero == Rng(Scn.zero)
On(k) == k \in Rng(Scn.dms)
\* the list of modes
EvModes == /\ Ev.ev = "modes"
           /\ Chk("ModesInOrder", Ev.list = AllModes(Scn.ns, Scn.perfect, Scn.zs, Zero, Scn.nstar))
           /\ UNCHANGED seen
\* the matrix of one mirror: which columns are empty, and how it compares
\* (in billionths of its largest element) with the first one at these commands
EvMatrix == /\ Ev.ev = "matrix"
            /\ Chk("UsedMirror", On(Ev.dm))
            /\ Chk("OneColumnPerActuator", Ev.ncol = Len(Ev.acts) /\ Ev.nmode = Ev.want[1] /\ Ev.npix = Ev.want[2])
            /\ \A i \in 1..Len(Ev.acts) :
                 Chk("StillColumnsEmpty", Ev.filled[i] = ~Still(Ev.acts[i], Dead(Ev.dm), Ties(Ev.dm)))
            /\ Chk("SameForSameCommands", <<Ev.cmd, Ev.dm>> \in seen => (Ev.err >= 0 /\ Ev.err <= 1000))
            /\ seen' = seen \cup {<<Ev.cmd, Ev.dm>>}
\* a sampled column against the change of the modelled field
EvColumn == /\ Ev.ev = "column"
            /\ Chk("MatchesModel:" \o Ev.kind, Ev.err <= Scn.tol)
            /\ Chk("Linearised", Still(Ev.act, Dead(Ev.dm), Ties(Ev.dm)) => ~Ev.moved)
            /\ UNCHANGED seen
EvUnused == /\ Ev.ev = "unused" /\ Chk("UnusedMirror", ~On(Ev.dm) /\ Ev.empty)
            /\ UNCHANGED seen
EvAfter == /\ Ev.ev = "after"
           /\ Chk("CommandsUnchanged", Ev.commands)
           /\ Chk("FieldsUnchanged", Ev.fields)
           /\ UNCHANGED seen
TraceNext == More /\ l' = l + 1 /\ tid' = tid
             /\ (EvModes \/ EvMatrix \/ EvColumn \/ EvUnused \/ EvAfter)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
