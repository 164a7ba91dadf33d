------------------------------ MODULE TraceLib ------------------------------
(* Common part of every trace specification.  A run of the real code is a    *)
(* record [scn |-> scenario, ev |-> sequence of events].  Verdicts are total:*)
(* a clause that fails is printed by name and the rest of the trace is still *)
(* checked, so one run names every clause every trace breaks.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid,   \* which trace
          l      \* next event of that trace

Scn == Traces[tid].scn
Evs == Traces[tid].ev
Ev  == Evs[l]

Bad(c) == PrintT("@@BAD " \o ToString(tid) \o " " \o ToString(l) \o " " \o c)
Chk(c, p) == IF p THEN TRUE ELSE Bad(c)

More == l <= Len(Evs)
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
