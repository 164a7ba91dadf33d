-------------------------- MODULE SavedStatesTrace --------------------------
EXTENDS TraceLib, SavedStates
VARIABLE st
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ st = Begin
ToSet(s) == {s[i] : i \in 1..Len(s)}
\* each result names the directly computed results it equals
Agree(op, fits) == /\ Len(fits) = Len(op.runs)
                   /\ \A i \in 1..Len(fits) : \E c \in ToSet(fits[i]) : c = Result(st, op.runs[i])
\* a file of wavelengths: one weighted sum; runs see what earlier ones saved
Summed(op, sums) == \E c \in ToSet(sums) : c = [i \in 1..Len(op.runs) |-> First(RanAll(st, SubSeq(op.runs, 1, i-1), 1), op.runs[i])]
EvOp == /\ Ev.ev = "op" /\ st' = Step(st, Ev.op)
        /\ Chk("ResultOfTheDirectRun", Ev.op.op \in {"run", "multi"} => Agree(Ev.op, Ev.fits))
        /\ Chk("WeightedSum", Ev.op.op = "file" => Summed(Ev.op, Ev.sums))
        /\ Chk("OneStateFilePerWavelength", Ev.files = Cardinality(st'.files))
        /\ Chk("OtherFilesUntouched", Ev.others)
        /\ Chk("FirstPartOnlyOnce", Ev.op.op \in {"run", "file"} =>
                 Ev.first = Cardinality({i \in 1..Len(Ev.op.runs) : LET r == Ev.op.runs[i] s == RanAll(st, SubSeq(Ev.op.runs, 1, i-1), 1)
                                                                    IN ~(r.save /\ s.on /\ s.held[r.lam] # None)}))
EvLaw == /\ Ev.ev = "law" /\ st' = st /\ Chk(Ev.name, Ev.ok)
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvOp \/ EvLaw)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, st>>
=============================================================================
