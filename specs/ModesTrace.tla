----------------------------- MODULE ModesTrace -----------------------------
EXTENDS TraceLib, Modes
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
Rng(s) == {s[i] : i \in 1..Len(s)}
ns == Scn.ns
zs == Scn.zs
zero == Rng(Scn.zero)
One == StarModes(ns, Scn.perfect, zs, zero, 0)
M == Len(One)
K == Scn.nstar
\* weights arrive over 4*Lcm of the column sums (Scn.den)
W(z, si) == Weight(ns, Scn.perfect, zero, z, si, Scn.den)
EvModes == /\ Ev.ev = "modes"
           /\ Chk("NumberOfModes", Ev.n = M*K /\ Ev.nper = M)
           /\ Chk("ModesInOrder", Len(Ev.list) = M*K
                  /\ \A k \in 1..K, i \in 1..M : Ev.list[(k-1)*M + i] = <<One[i][1], One[i][2], k-1>>)
           /\ Chk("ModeWeights", Len(Ev.w) = M*K
                  /\ \A k \in 1..K, i \in 1..M : Ev.w[(k-1)*M + i] = W(One[i][2], One[i][1]))
           /\ Chk("WeightMatrix", \A si \in 1..ns, z \in 1..Len(zs) :
                    Ev.mat[si][z] = W(zs[z], si-1))
           /\ Chk("PistonAmplitude", \A z \in 1..Len(zs) :
                    Ev.zc[z] = IF zs[z] = 1 THEN 1000 ELSE IF zs[z] \in zero THEN 0 ELSE zs[z])
           /\ Chk("WholeNumbers", Ev.frac <= 1000)
\* the compact model and the Jacobian look a mode's amplitude up by its index
EvReject == /\ Ev.ev = "reject" /\ Chk("InvalidModesRejected", Ev.exc = "ValueError")
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvModes \/ EvReject)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
