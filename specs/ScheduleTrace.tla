--------------------------- MODULE ScheduleTrace ----------------------------
(* What the decoder of the code returned against the meaning of the rows.    *)
EXTENDS TraceLib, Schedule
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
R == Scn.rows
SetOf(s) == {s[i] : i \in 1..Len(s)}
EvDec == /\ Ev.ev = "decoded"
         /\ Chk("NumberOfIterations", Ev.nitr = NItr(R))
         /\ Chk("RelinearisationIterations", SetOf(Ev.relin) = RelinItrs(R))
         /\ Chk("GridSearchIterations", SetOf(Ev.grid) = GridItrs(R))
         /\ Chk("Regularisation", Len(Ev.reg) = NItr(R) /\
              \A k \in 0..(NItr(R)-1) : Ev.reg[k+1] = <<RegRe(R, k), RegIm(R, k)>>)
         /\ Chk("Mirrors", Len(Ev.dms) = NItr(R) /\
              \A k \in 0..(NItr(R)-1) : SetOf(Ev.dms[k+1]) = Dms(R, k) /\ Len(Ev.dms[k+1]) = Cardinality(Dms(R, k)))
         /\ Chk("InputUnchanged", Ev.same)
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ EvDec
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
