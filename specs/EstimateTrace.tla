--------------------------- MODULE EstimateTrace ----------------------------
EXTENDS TraceLib, Estimate
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
ns == Scn.ns
nw == Scn.nw
nst == Scn.nst
NK == Scn.neta*Scn.nxi
Conds == {Scn.conds[i] : i \in 1..Len(Scn.conds)}
P == MeanPol(Conds)
Ms == AllModes(ns, TRUE, Scn.zs, {}, nst)
EvEst == /\ Ev.ev = "estimate"
         /\ Chk("OneEstimatePerMode", Len(Ev.re) = Len(Ms) /\ Len(Ev.im) = Len(Ms))
         /\ Chk("EstimateIsModelField", \A m \in 1..Len(Ev.re) : m <= Len(Ms) =>
              /\ Ev.re[m] = [i \in 1..Len(Ev.pix) |-> MeanRe(ns, nw, TRUE, P, Ms[m], Ev.pix[i])]
              /\ Ev.im[m] = [i \in 1..Len(Ev.pix) |-> MeanIm(ns, nw, TRUE, P, Ms[m], Ev.pix[i])])
         /\ Chk("ImageOfEverySubband", Len(Ev.image) = ns /\ \A s \in 1..Len(Ev.image) :
              Ev.image[s] = [k \in 1..NK |-> EstImage(ns, nw, TRUE, P, nst, s-1, k-1)])
         /\ Chk("NoIncoherentPart", Ev.incozero)
         /\ Chk("MeasuredImageIsTheSummedImage", Ev.imsame)
         /\ Chk("NothingElseChanges", Ev.same)
         /\ Chk("WholeNumbers", Ev.frac <= 1000)
EvRej == /\ Ev.ev = "rejected" /\ Chk("UnknownPolarisationRejected", P = -99 /\ Ev.exc = "ValueError")
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvEst \/ EvRej)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
