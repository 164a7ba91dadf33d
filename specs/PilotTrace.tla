----------------------------- MODULE PilotTrace -----------------------------
(* Runs of the propagator against the pilot-beam specification.  Measured    *)
(* lengths come in 1e-5 of their unit, errors in 1e-9.                       *)
EXTENDS TraceLib, Pilot
VARIABLE st
Unit == 100000
Is(meas, n, d) == Abs((meas * d) - (n * Unit)) <= 3 * d
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ st = Begin
EvOp == /\ Ev.ev = "op"
        /\ st' = Step(st, Ev.op)
        /\ Chk("DistanceFromWaist", Is(Ev.x, st'.q.x, st'.q.d))
        /\ Chk("RayleighDistance", Is(Ev.y, st'.q.y, st'.q.d))
        /\ Chk("Position", Is(Ev.z, st'.z.n, st'.z.d))
        /\ Chk("ReferenceSurface", Ev.flat = st'.flat)
        /\ Chk("Sampling", Is(IF st'.k = 0 THEN Ev.dx0 ELSE Ev.dx1, st'.s.n, st'.s.d))
        /\ Chk("EnergyConserved", Ev.energy <= 1000)
        /\ Chk("BeamDescription", Ev.beam <= 1000)
\* the field against a closed form, where the grid holds it
EvField == /\ Ev.ev = "field" /\ st' = st /\ Chk("FresnelField", Ev.fits => Ev.err <= 200000)
\* the whole program in another way
EvWay == /\ Ev.ev = "way" /\ st' = st /\ Chk(Ev.name, Ev.err <= Ev.tol)
\* the printed table: a row for every step, in order (six digits are printed)
EvTable == /\ Ev.ev = "table" /\ st' = st
           /\ Chk("TableRows", Ev.kinds = [i \in 1..Len(Scn.prog) |-> IF Scn.prog[i][1] = "lens" THEN "LENS" ELSE "SURFACE"])
           /\ Chk("TableNames", Ev.named)
           /\ Chk("TableValues", Ev.err <= 1000)
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvOp \/ EvField \/ EvWay \/ EvTable)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, st>>
=============================================================================
