---------------------------- MODULE DefaultsTrace ----------------------------
EXTENDS TraceLib, Defaults
TraceInit == tid \in 1..Len(Traces) /\ l = 1
Table(group) == CASE group = "mp" -> Plain [] group = "full" -> InFull [] group = "est" -> InEst [] group = "ctrl" -> InCtrl
   [] group = "ad" -> InAd [] group \in {"star", "compact.star"} -> InStar [] group = "F3" -> InF3 [] group = "jac" -> InJac
   [] group = "detector" -> InDetector [] group = "eval" -> InEval [] group = "P1" -> InP1 [] group \in {"dm1", "dm2"} -> InDm
\* one setting after preparing
EvOption == /\ Ev.ev = "option"
   /\ Chk("UserSettingKept", Ev.set => Ev.got = Ev.user)
   /\ Chk("DocumentedDefault", ~Ev.set => Ev.got = Table(Ev.group)[Ev.name])
\* every setting of the table was reported
EvGroup == /\ Ev.ev = "group" /\ Chk("EverySettingFilled", DOMAIN Table(Ev.group) \subseteq {Ev.names[i] : i \in 1..Len(Ev.names)})
\* settings that depend on others
EvLimits == /\ Ev.ev = "limits"
   /\ LET u == Ev.user
          v == VmaxOf(u[1], Ev.sim)
          b == BiasOf(u[4], v)
      IN /\ Chk("LimitsFilled", Ev.got = <<Num(v), Num(OrElse(u[2], v)), Num(OrElse(u[3], v)), Map(Ev.n, b), Map(Ev.n, OrElse(u[5], b))>>)
EvPerBand == /\ Ev.ev = "perband" /\ Chk("OnePerSubBand", Ev.flux = List("100000000", Ev.ns) /\ Ev.time = List("1", Ev.ns))
             /\ Chk("OnePerStar", Ev.weights = List("1", Ev.stars))
EvKey == /\ Ev.ev = "key"
   /\ Chk("AllowedAccepted", Ev.low \in Allowed(Ev.key) => Ev.raised = "" /\ Ev.got = Ev.low)
   /\ Chk("OthersRejected", Ev.low \notin Allowed(Ev.key) => Ev.raised = "ValueError")
EvSame == /\ Ev.ev = "same" /\ Chk(Ev.name, Ev.ok)
EvLaw == /\ Ev.ev = "law" /\ Chk(Ev.name, Ev.err <= Ev.tol)
\* a stop of an n by n array whose pixels reach over a smaller even array
EvStop == /\ Ev.ev = "stop" /\ Chk("StopKept", Ev.kept = Kept(Ev.n, Ev.reach) /\ Ev.whole)
\* a field given in another array: each wavelength about the same centre, nothing outside
At(a, n, i) == i + (n \div 2) - (a \div 2)
EvField == /\ Ev.ev = "field"
   /\ Chk("FieldShape", Ev.shape = <<Ev.size, Ev.size, Ev.subs, Ev.bands>>)
   /\ Chk("FieldKept", Ev.exact /\ \A s \in 1..Ev.bands, w \in 1..Ev.subs : \A i, j \in 0..(Ev.size-1) :
        LET y == At(Ev.size, Ev.n, i)
            x == At(Ev.size, Ev.n, j)
        IN Ev.got[s][w][i+1][j+1] = IF y \in 0..(Ev.n-1) /\ x \in 0..(Ev.n-1) THEN Ev.given[s][w][y+1][x+1] ELSE 0)
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvOption \/ EvGroup \/ EvLimits \/ EvPerBand \/ EvKey \/ EvSame \/ EvLaw \/ EvStop \/ EvField)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
=============================================================================
