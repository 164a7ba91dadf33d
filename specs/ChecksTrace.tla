---------------------------- MODULE ChecksTrace -----------------------------
EXTENDS TraceLib, Checks
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
V == Scn.val
C == Scn.name
\* the names of the centerings are strings as well
Ok == Holds(C, IF V.kind \in {"pixel", "interpixel"} /\ C # "centering" THEN [kind |-> "str"] ELSE V)
EvCheck == /\ Ev.ev = "check"
           /\ Chk("Accepts:" \o C, Open(C, V) \/ ~Ok \/ Ev.exc = "")
           /\ Chk("Rejects:" \o C, Open(C, V) \/ Ok \/ Ev.exc = Exc(C, V, Scn.exc))
           /\ Chk("ReturnsArgument:" \o C, Ev.exc # "" \/ Ev.same)
           /\ Chk("ArgumentUnchanged", Ev.kept)
           /\ Chk("BadNameRejected", C = "centering" \/ Ev.badname = "CheckException")
           /\ Chk("BadExceptionRejected", C \in Fixed \/ Ev.badexc = <<"CheckException", "CheckException">>)
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ EvCheck
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
