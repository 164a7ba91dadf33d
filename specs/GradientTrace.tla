--------------------------- MODULE GradientTrace ----------------------------
EXTENDS TraceLib, Gradient
VARIABLES best    \* last regularisation a grid search found
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ best = 99999
\* numeric laws: errors in billionths
EvLaw == /\ Ev.ev = "law" /\ best' = best /\ Chk(Ev.name, Ev.err <= Ev.tol)
\* one control step: what was tried, from where, and what was applied
Tried(k) == Ev.trials[k]
Row == Ev.row
EvStep == /\ Ev.ev = "step"
   /\ LET n == Len(Ev.trials)
          grid == Row.grid
          only == grid /\ Row.best /\ Row.value = 0
          searched == SubSeq(Ev.inten, 1, Len(Ev.regs)*Ev.nfac)
          found == IF grid THEN Ev.regs[((BestOf(searched) - 1) % Len(Ev.regs)) + 1] ELSE best
          reg == RegUsed(Row.best, Row.value, found)
          want == (IF grid THEN Len(Ev.regs)*Ev.nfac ELSE 0) + (IF only THEN 0 ELSE 1)
      IN /\ best' = found
         /\ Chk("EveryTrialOnce", n = want)
         /\ \A k \in 1..n : Chk("TrialInsideBounds", Tried(k).inside)
                         /\ Chk("TrialOnlyMovesUsedMirrors", Tried(k).others)
                         /\ Chk("TrialMovesOnlyUsable", Tried(k).dead)
                         /\ Chk("TrialNeverWorseByItsCost", Tried(k).gain >= -1000)
                         /\ Chk("TrialRegularisation", grid /\ (k <= Len(Ev.regs)*Ev.nfac) => Tried(k).reg = Ev.regs[((k-1) % Len(Ev.regs)) + 1])
         /\ Chk("FinalRegularisation", (~only /\ n >= 1) => Tried(n).reg = reg)
         /\ Chk("ReportedRegularisation", Ev.used = reg)
         /\ Chk("AppliedIsTheChosenTrial", IF only THEN Ev.applied = Tried(BestOf(searched)).cmd ELSE n >= 1 /\ Ev.applied = Tried(n).cmd)
         /\ Chk("ReportedIntensity", Ev.cmin = IF only THEN Ev.inten[BestOf(searched)] ELSE Ev.inten[n])
         /\ Chk("ReportedChange", Ev.delta) /\ Chk("NothingPinned", Ev.pinned) /\ Chk("OthersStay", Ev.others)
EvScale == /\ Ev.ev = "scale" /\ best' = best /\ Chk("ScaleIsTheLargestDiagonal", Ev.err <= 1000)
           /\ Chk("ActuatorsRestored", Ev.acts) /\ Chk("CommandsUnchanged", Ev.cmds)
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvLaw \/ EvStep \/ EvScale)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, best>>
=============================================================================
