--------------------------- MODULE DmCommandTrace ---------------------------
(* Commands the code lets through, call by call.  The state of the           *)
(* specification (pins remembered) is carried along the trace.               *)
EXTENDS TraceLib, DmCommand
VARIABLE pin
vars == <<tid, l, pin>>
N == Scn.n
Dead == IF "dead" \in DOMAIN Scn THEN {a \in 1..N : Scn.dead[a] = 1} ELSE {}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
             /\ pin = IF "pin" \in DOMAIN Scn THEN Scn.pin ELSE <<>>
\* limits relative to the bias of every actuator
Lo == [a \in 1..N |-> Scn.lo - (Scn.bias[a] - Scn.bias0)]
Hi == [a \in 1..N |-> Scn.hi - (Scn.bias[a] - Scn.bias0)]
\* Ev: the command put in (C), the command out (V), pins now remembered
EvEnf == /\ Ev.ev = "enforce"
         /\ LET E == Enforced(Ev.C, Dead, pin, Scn.ties, Lo, Hi)
                P == NewPin(Ev.C, Dead, pin, Lo, Hi)
            IN /\ Chk("WithinRange", \A a \in 1..N : (pin[a] = Free /\ ~\E i \in 1..Len(Scn.ties) : Scn.ties[i][2] = a)
                        => Ev.V[a] >= Lo[a] /\ Ev.V[a] <= Hi[a])
               /\ Chk("DeadActuatorsFixed", \A a \in Dead : Ev.V[a] = E[a])
               /\ Chk("PinnedActuatorsFixed", \A a \in 1..N : P[a] # Free => Ev.V[a] = E[a])
               /\ Chk("TiedActuatorsEqual", \A i \in 1..Len(Scn.ties) : Ev.V[Scn.ties[i][1]] = Ev.V[Scn.ties[i][2]])
               /\ Chk("CommandsAsEnforced", Ev.V = E)
               /\ Chk("PinsRemembered", Ev.P = P)
               /\ Chk("EnforcingTwiceChangesNothing", Ev.again)
               /\ pin' = P
EvQuant == /\ Ev.ev = "quant"
           /\ Chk("DiscretisedCommands", Ev.steps = [a \in 1..Len(Ev.h) |-> Quant(Ev.method, Ev.h[a], Ev.q)])
           /\ Chk("DiscretisingKeepsTheCommand", Ev.same)
           /\ Chk("WholeNumbers", Ev.frac <= 1000)
           /\ UNCHANGED pin
EvQRej == /\ Ev.ev = "quantrej" /\ Chk("UnknownRoundingRejected", Ev.exc = "ValueError") /\ UNCHANGED pin
\* neighbour rule: values in millionths
Nb(a, b, m) == LET ra == (a-1) \div m  ca == (a-1) % m
                   rb == (b-1) \div m  cb == (b-1) % m
               IN a # b /\ Abs(ra-rb) <= 1 /\ Abs(ca-cb) <= 1
EvNbr == /\ Ev.ev = "neighbour"
         /\ LET M == Ev.m*Ev.m
                viol == {p \in (1..M) \X (1..M) : p[1] < p[2] /\ Nb(p[1], p[2], Ev.m) /\ Abs(Ev.C[p[1]]-Ev.C[p[2]]) > Ev.lim}
                told == {<<Min2(Ev.pairs[i][1], Ev.pairs[i][2])+1, Max2(Ev.pairs[i][1], Ev.pairs[i][2])+1>> : i \in 1..Len(Ev.pairs)}
            IN /\ Chk("NeighboursWithinLimit", \A p \in (1..M) \X (1..M) :
                        Nb(p[1], p[2], Ev.m) => Abs(Ev.V[p[1]]-Ev.V[p[2]]) <= Ev.lim + 2)
               /\ Chk("AdmissibleCommandUnchanged", viol = {} => Ev.V = Ev.C /\ Len(Ev.pairs) = 0)
               /\ Chk("ViolatingPairsReported", viol # {} =>
                        /\ told \subseteq {p \in (1..M) \X (1..M) : Nb(p[1], p[2], Ev.m)}
                        /\ \E p \in viol : p \in told)
               /\ Chk("MeanCommandKept", Abs(Ev.sumdiff) <= 100)
               /\ Chk("UntouchedActuatorsKept", \A a \in 1..M : (~\E p \in told : a \in {p[1], p[2]}) => Ev.V[a] = Ev.C[a])
               /\ Chk("InputUnchanged", Ev.same)
         /\ UNCHANGED pin
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvEnf \/ EvQuant \/ EvQRej \/ EvNbr)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
