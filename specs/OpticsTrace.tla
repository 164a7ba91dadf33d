---------------------------- MODULE OpticsTrace -----------------------------
EXTENDS TraceLib, Optics
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
\* a law of the two models: relative difference in billionths
EvLaw == Ev.ev = "law" /\ Chk(Ev.name \o ":" \o Ev.model, Ev.err <= Ev.tol)
\* the run without relays and with masks turned as recorded
EvTurn == /\ Ev.ev = "turn"
          /\ Chk("TurnsUsed", \A p \in 1..5 : Ev.turns[p] = Turned(Scn.rot, Scn.r, p))
          /\ Chk("RelaysTurnTheBeam:" \o Ev.model, Ev.err <= Ev.tol)
\* where the image of a source is brightest, in pixels from the axis (twice)
EvStar == /\ Ev.ev = "star"
          /\ Chk("SourcePosition:" \o Ev.how, /\ Ev.at[1] = Side(Scn.rot, Scn.r)*Ev.want[1]
                                 /\ Ev.at[2] = Side(Scn.rot, Scn.r)*Ev.want[2])
EvState == Ev.ev = "state" /\ Chk("ConfigurationUnchanged", Ev.same)
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvLaw \/ EvTurn \/ EvStar \/ EvState)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
