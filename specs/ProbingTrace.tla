---------------------------- MODULE ProbingTrace ----------------------------
EXTENDS TraceLib, Probing
VARIABLE n     \* images taken so far
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ n = 0
Expected == ImageAt(Scn.n, Scn.ns, n+1)
\* codes of the commands seen: 0 nominal, otherwise the probes they equal
AxisCode(a) == CASE a = "x" -> 100 [] a = "y" -> 200 [] OTHER -> 300
Probe(i) == AxisCode(AxisOf(Scn.est, Scn.axis, Scn.itr, i)) + PhaseOf(Scn.n, i)
            + (IF Scn.est = "rect" THEN 1000*Expected[1] ELSE 0)
Moved(d) == IF Scn.which = 1 THEN Ev.d1 ELSE Ev.d2
Other(d) == IF Scn.which = 1 THEN Ev.d2 ELSE Ev.d1
In(x, s) == \E i \in 1..Len(s) : s[i] = x
EvImage == /\ Ev.ev = "image" /\ n' = n + 1
   /\ Chk("NoMoreImages", n < NImages(Scn.n, Scn.ns, Scn.nst))
   /\ Chk("ImageOfItsSubband", Ev.sbp = Expected[2])
   /\ Chk("OtherMirrorStays", In(0, Other(0)))
   /\ Chk("NominalOrProbe", In(IF Expected[3] = 0 THEN 0 ELSE Probe(Expected[3]), Moved(0)))
EvLaw == /\ Ev.ev = "law" /\ n' = n /\ Chk(Ev.name, Ev.err <= Ev.tol)
EvEnd == /\ Ev.ev = "end" /\ n' = 0
   /\ Chk("EveryImageTaken", Scn.optics \/ n = NImages(Scn.n, Scn.ns, Scn.nst))
   /\ Chk("OneEstimatePerMode", Ev.modes = Scn.ns*Scn.nst)
   /\ Chk("CommandsRestored", Ev.cmds) /\ Chk("PinnedRestored", Ev.pinned)
   /\ Chk("MirrorSelectionRestored", Ev.dmind) /\ Chk("NothingElseChanges", Ev.state)
EvPix == /\ Ev.ev = "pixel" /\ n' = n
   /\ Chk("UnsolvablePixelIsZero", Ev.good >= 2 \/ Ev.zero)
   /\ Chk("TooBrightIsZero", ~Ev.bright \/ Ev.zero)
   /\ Chk("OtherwiseSolved", ~(Ev.good >= 2 /\ ~Ev.bright) \/ Ev.err <= Ev.tol)
   /\ Chk("RemainderIsIncoherent", Ev.inco <= Ev.tol)
EvRej == /\ Ev.ev = "rejected" /\ n' = n /\ Chk("OnlyInvalidRejected", Ev.invalid) /\ Chk("ValueError", Ev.exc = "ValueError")
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvImage \/ EvLaw \/ EvEnd \/ EvPix \/ EvRej)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, n>>
=============================================================================
