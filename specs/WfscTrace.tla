------------------------------ MODULE WfscTrace -----------------------------
(* Is a recorded run of the real loop a behaviour of WfscLoop?  The events   *)
(* are the calls the loop makes; commands are identified by small integers   *)
(* (equal commands = equal integers).  Scn.want selects the clause groups of *)
(* the property under check.                                                 *)
EXTENDS TraceLib, Schedule

VARIABLES V, itr, pc, jac, best, hist, used, raws,
          recs    \* what the history has to say about the estimates so far

vars == <<tid, l, V, itr, pc, jac, best, hist, used, raws, recs>>

Rng(s) == {s[i] : i \in 1..Len(s)}
Want == Rng(Scn.want)
C(g, name, p) == IF g \in Want THEN Chk(name, p) ELSE TRUE

Rows == Scn.rows
Planned == Scn.ctl = "plannedefc"
Ad == Scn.ctl = "ad-efc"
N == IF Planned THEN NItr(Rows) ELSE Scn.nitr
DmsAt(k) == IF Planned THEN Dms(Rows, k) ELSE Rng(Scn.dms)
RelinAt(k) == ~Ad /\ (k = 0 \/ IF Planned THEN k \in RelinItrs(Rows) ELSE k \in Rng(Scn.relin))
GridAt(k) == IF Planned \/ Ad THEN k \in GridItrs(Rows) ELSE TRUE
D == DmsAt(itr)

NoJac == [at |-> -1, v |-> <<0, 0>>, dms |-> {}]
Reset == /\ V = <<0, 0>> /\ itr = 0 /\ pc = "begin" /\ jac = NoJac
         /\ best = <<>> /\ hist = <<>> /\ used = <<>> /\ raws = <<>> /\ recs = <<>>
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ Reset

SameUnscheduled(v) == \A d \in {1, 2} \ D : v[d] = V[d]

EvStart == /\ Ev.ev = "start"
           /\ V' = Ev.v
           /\ C("sched", "IterationCount", Ev.nitr = N)
           /\ UNCHANGED <<itr, pc, jac, best, hist, used, raws, recs>>

\* tolerated: which commands the loop finds is decided by V (threaded by us)
EvJac == /\ Ev.ev = "jac"
         /\ C("sched", "RelinearizeOnlyWhenScheduled", RelinAt(itr))
         /\ C("sched", "RelinearizeOncePerIteration", jac.at # itr)
         /\ C("sched", "RelinearizeBeforeEstimateAndControl", pc = "begin")
         /\ C("sched", "JacobianAtCurrentCommands", Ev.pre = V)
         /\ C("sched", "JacobianLeavesCommands", Ev.v = Ev.pre)
         /\ C("sched", "JacobianForScheduledDMs", Rng(Ev.dms) = D)
         /\ C("sched", "JacobianHasAllActuatorsInUse", Ev.ncol = Ev.nele)
         /\ jac' = [at |-> itr, v |-> Ev.v, dms |-> Rng(Ev.dms)]
         /\ UNCHANGED <<V, itr, pc, best, hist, used, raws, recs>>

EvEst == /\ Ev.ev = "est"
         /\ C("sched", "OneEstimatePerIteration", pc = "begin" /\ Ev.itr = itr)
         /\ C("sched", "RelinearizedWhenScheduled", RelinAt(itr) => jac.at = itr)
         /\ C("sched", "EstimateAtCurrentCommands", Ev.pre = V)
         /\ C("sched", "EstimateLeavesCommands", Ev.v = Ev.pre)
         /\ C("sched", "EstimateWithScheduledDMs", Rng(Ev.dms) = D)
         /\ C("sched", "EstimateLeavesDmSelection", Rng(Ev.dms2) = Rng(Ev.dms))
         /\ C("sched", "EstimatePinsNoActuator", Ev.pin2 = Ev.pin)
         /\ hist' = Append(hist, V)
         /\ raws' = Append(raws, Ev.raw)
         /\ recs' = Append(recs, Ev.rec)
         /\ pc' = "ctrl"
         /\ UNCHANGED <<V, itr, jac, best, used>>

Tr == Ev.tr
NT == Len(Tr)
GridPairs == Rng(Ev.grid)
BestTrials(n) == {i \in 1..n : Tr[i].best}
\* the trials of the grid search are the first |grid| ones of the call
NG == Len(Ev.grid)
Matches(i) == Rng(Tr[i].match)
\* every pair of the grid is tried once, each trial is the command of a pair
GridTried(n) == /\ n = NG
                /\ \E f \in [1..n -> 1..NG] :
                      /\ \A i, j \in 1..n : i # j => f[i] # f[j]
                      /\ \A i \in 1..n : Ev.grid[f[i]] \in Matches(i)
MinI(n) == CHOOSE m \in {Tr[i].inorm : i \in 1..n} : \A i \in 1..n : m <= Tr[i].inorm
BestOf(n) == {i \in 1..n : Tr[i].inorm = MinI(n)}

PlannedReg == IF RegIm(Rows, itr) = 1
              THEN (IF best = <<>> THEN 0 ELSE best[1]) + RegRe(Rows, itr)
              ELSE RegRe(Rows, itr)
PlannedFac == IF best = <<>> THEN 1000 ELSE best[2]
UseBestTrial == GridAt(itr) /\ RegIm(Rows, itr) = 1 /\ RegRe(Rows, itr) = 0
HasOracle == NT = 0 \/ "match" \in DOMAIN Tr[1]

GridBest == LET i == CHOOSE j \in BestOf(NG) : TRUE IN i

\* Expected outcome of one control step, for each kind of controller.
PlainOutcome ==
  /\ C("trial", "OneTrialPerPair", NT = NG)
  /\ C("trial", "BestTrialIsApplied", NT = NG => \E i \in BestOf(NT) : Ev.v = Tr[i].v)
  /\ C("law", "EveryPairTriedOnce", HasOracle => GridTried(NT))
  /\ C("law", "EveryTrialIsALeastSquaresStep",
       HasOracle => \A i \in 1..NT : Matches(i) # {})
  /\ C("trial", "ReportedRegIsTheAppliedOne",
       HasOracle /\ NT = NG => \E i \in BestOf(NT) : \E m \in Matches(i) : m[1] = Ev.reg)
  /\ best' = best

PlannedOutcome ==
  LET ng == IF GridAt(itr) THEN NG ELSE 0
      nt == IF UseBestTrial THEN ng ELSE ng + 1
      gb == IF GridAt(itr) /\ NT = nt
            THEN {m \in GridPairs : \E i \in BestOf(NG) : m \in Matches(i)} ELSE {}
      nb == IF gb = {} THEN best ELSE CHOOSE m \in gb : TRUE
  IN /\ C("trial", "TrialCount", NT = nt)
     /\ C("law", "EveryPairTriedOnce",
          GridAt(itr) /\ NT = nt =>
             \E f \in [1..NG -> 1..NG] : /\ \A i, j \in 1..NG : i # j => f[i] # f[j]
                                        /\ \A i \in 1..NG : Ev.grid[f[i]] \in Matches(i))
     /\ C("law", "EveryTrialIsALeastSquaresStep",
          HasOracle => \A i \in 1..NT : Matches(i) # {})
     /\ C("trial", "ScheduledReg",
          NT = nt => Abs(Ev.reg - (IF RegIm(Rows, itr) = 1
                      THEN (IF nb = <<>> THEN 0 ELSE nb[1]) + RegRe(Rows, itr)
                      ELSE RegRe(Rows, itr))) <= 1)
     /\ C("trial", "AppliedCommandWasTried",
          NT = nt => IF UseBestTrial THEN \E i \in BestOf(NG) : Ev.v = Tr[i].v
                                     ELSE Ev.v = Tr[NT].v)
     /\ C("trial", "FinalTrialUsesScheduledPair",
          NT = nt /\ ~UseBestTrial =>
            \E m \in Matches(NT) : /\ Abs(m[1] - Ev.reg) <= 1
                                   /\ m[2] = IF nb = <<>> THEN 1000 ELSE nb[2])
     /\ best' = nb

EvCtrl == /\ Ev.ev = "ctrl"
          /\ C("sched", "OneControlPerIteration", pc = "ctrl" /\ Ev.itr = itr)
          /\ C("sched", "ControlStartsFromCurrentCommands", Ev.pre = V)
          /\ C("sched", "ControlWithScheduledDMs", Rng(Ev.dms) = D /\ Rng(Ev.dms2) = D)
          /\ C("sched", "OnlyScheduledDMsMove", SameUnscheduled(Ev.v))
          /\ C("trial", "TrialsMoveOnlyScheduledDMs",
               \A i \in 1..NT : SameUnscheduled(Tr[i].v))
          /\ C("trial", "TrialsPinNoActuator", Ev.pin2 = Ev.pin)
          /\ C("trial", "ReportedDeltaIsTheChange", Ev.dv)
          /\ C("law", "ControlLeavesTheEstimate", Ev.est)
          /\ IF Planned THEN PlannedOutcome
             ELSE IF Ad THEN best' = best
             ELSE PlainOutcome
          /\ V' = Ev.v
          /\ used' = Append(used, Ev.reg)
          /\ raws' = IF itr + 1 = N /\ NT > 0
                     THEN LET i == CHOOSE j \in 1..NT : Tr[j].v = Ev.v \/ \A k \in 1..NT : Tr[k].v # Ev.v
                          IN Append(raws, Tr[i].inorm)
                     ELSE raws
          /\ itr' = itr + 1
          /\ pc' = "begin"
          /\ UNCHANGED <<jac, hist, recs>>

\* the command limits may change a command that was just applied
EvCon == /\ Ev.ev = "con"
         /\ C("sched", "LimitsApplyToCurrentCommands", Ev.pre = V)
         /\ C("sched", "LimitsOnlyClipTheirDM", Ev.ok /\ Ev.v[3 - Ev.d] = V[3 - Ev.d])
         /\ V' = Ev.v
         /\ UNCHANGED <<itr, pc, jac, best, hist, used, raws, recs>>

EvEnd == /\ Ev.ev = "end"
         /\ C("sched", "EveryIterationRan", itr = N)
         /\ C("sched", "FinalCommandsAreTheApplied", Ev.v = V)
         /\ C("hist", "CommandHistory", Ev.hist = Append(hist, V))
         /\ C("hist", "RegularizationHistory", SubSeq(Ev.reg, 1, N) = used)
         /\ C("hist", "MeasuredHistory",
              /\ Len(raws) <= Len(Ev.raw)
              /\ \A k \in 1..Len(raws) :
                    Abs(Ev.raw[k] - raws[k]) <= 1 + raws[k] \div 1000000)
         /\ C("hist", "NormalizedIntensityHistory", Ev.inorm = Ev.raw)
         /\ C("hist", "EstimateHistory", Len(recs) = N => Ev.rec.est = recs)
         /\ C("hist", "FinalIntensityHistory",
              ~Scn.model => Ev.rec.final = Ev.rec.finalexp)
         /\ C("hist", "CommandStatistics",
              \A k \in 1..N : \A d \in {1, 2} :
                 Ev.rec.dm[k][d] = IF d \in DmsAt(k-1) THEN Ev.rec.dmexp[k][d]
                                   ELSE <<0, 0, 0>>)
         /\ C("hist", "ThroughputHistory", Ev.rec.thput = Ev.rec.thputexp)
         /\ C("hist", "StoringLeavesTheEstimate", Ev.rec.inco0 /\ Ev.rec.est0)
         /\ C("hist", "ChangesComparedWithTheModel",
              /\ Len(Ev.rec.chg) = N - 1 /\ Len(Ev.rec.chgexp) = N - 1
              /\ \A k \in 1..(N-1) : \A s \in 1..Len(Ev.rec.chgexp[k]) : \A j \in {1, 2} :
                    Abs(Ev.rec.chg[k][s][j] - Ev.rec.chgexp[k][s][j])
                       <= 10 + Ev.rec.chgexp[k][s][j] \div 100000)
         /\ C("hist", "CorrelationAtMostOne",
              \A k \in 1..Len(Ev.rec.chg) : \A s \in 1..Len(Ev.rec.chg[k]) : Ev.rec.chg[k][s][2] <= 1000001)
         \* sensitivities of every iteration, with the commands it ended with
         /\ C("hist", "SensitivityHistory",
              IF Ev.rec.zsset
              THEN Ev.rec.zsok /\ Ev.rec.zs = SubSeq(Append(hist, V), 2, N + 1)
              ELSE Ev.rec.zs = <<>>)
         \* singular values of the response, and the estimate in their modes
         /\ C("hist", "SpectrumOfEveryIteration",
              /\ Ev.rec.svdrec = [k \in 1..4 |-> IF Ev.rec.svdset THEN N ELSE 0]
              /\ Ev.rec.svdset => Len(Ev.rec.svd) = N)
         /\ C("hist", "SpectrumIsTheResponse",
              \A k \in 1..Len(Ev.rec.svd) : LET q == Ev.rec.svd[k] IN
                 /\ q.size = q.n /\ q.down
                 /\ q.values <= 100 /\ q.total <= 100 /\ q.largest <= 100)
         /\ C("hist", "SpectrumOfTheEstimate",
              \A k \in 1..Len(Ev.rec.svd) : Ev.rec.svd[k].power <= 100 /\ Ev.rec.svd[k].split <= 1000)
         /\ C("hist", "WorkspaceFileOnlyOnRequest", Ev.rec.wsfile = Ev.rec.wsset)
         /\ C("hist", "SavedWorkspaceIsTheFinalState", Ev.rec.wsok)
         /\ C("hist", "SavingLeavesTheWorkspace", Ev.rec.wskeep)
         /\ C("hist", "SavedSnippetIsTheHistory", Ev.rec.saved)
         /\ UNCHANGED <<V, itr, pc, jac, best, hist, used, raws, recs>>

\* the same loop run serially and in parallel (differences in 1e-9)
EvPar == /\ Ev.ev = "par"
         /\ C("trial", "ParallelLoopIsTheSerialLoop",
              /\ Ev.V1 <= 1000 /\ Ev.V2 <= 1000 /\ Ev.hist <= 1000
              /\ Ev.reg <= 1 /\ Ev.raw <= 1000)
         /\ C("trial", "TheLoopMovedTheDMs", Ev.moved)
         /\ UNCHANGED <<V, itr, pc, jac, best, hist, used, raws, recs>>

TraceNext == /\ More /\ l' = l + 1 /\ tid' = tid
             /\ (EvStart \/ EvJac \/ EvEst \/ EvCtrl \/ EvCon \/ EvEnd \/ EvPar)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
