---------------------------- MODULE ExternalTrace ----------------------------
EXTENDS TraceLib, External
VARIABLES st
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1
             /\ st = [cmd |-> <<0, 0>>, used |-> {1, 2}, par |-> FALSE, pol |-> 0]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Op == IF Ev.op.k = "use" THEN [k |-> "use", dms |-> SetOf(Ev.op.dms)] ELSE Ev.op
Unseen == Op.k = "sens" /\ st.par /\ Ev.runs = <<>>
EvOp == LET want == Runs(Scn.c, st, Op) IN
        /\ Ev.ev = "op" /\ st' = After(Scn.c, st, Op)
        \* runs in other processes are not seen
        /\ Chk("NumberOfRuns:" \o Op.k, Unseen \/ Len(Ev.runs) = Len(want))
        /\ Chk("RunsAsked:" \o Op.k, Unseen \/ SameBag(Ev.runs, want))
        /\ Chk("OptionsReachThePrescription", Ev.options)
        /\ Chk("GridOfThePrescription", Ev.grid)
        /\ Chk("Result:" \o Op.k, Ev.err <= 100)
        /\ Chk("Shape", Ev.shape)
        /\ Chk("ConfigurationUnchanged:" \o Op.k, Ev.same)
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ EvOp
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, st>>
=============================================================================
