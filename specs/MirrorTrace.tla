----------------------------- MODULE MirrorTrace ----------------------------
EXTENDS TraceLib, Mirror
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
N == Scn.n
M == Proj(Scn.a, Scn.b, Scn.k, Scn.zyx)
Want(q) == Place(M, N-1+Scn.dx2, N-1+Scn.dy2, Seat(Scn.o, N, q))
\* measured in thousandths of a pitch
Near(got, want, tol) == /\ Abs(got[1] - 125*want[1]) <= tol
                        /\ Abs(got[2] - 125*want[2]) <= tol
Oblique == Scn.a # 0 \/ Scn.b # 0
Sign == IF Scn.neg THEN -1 ELSE 1
\* one actuator: its place, and its height (thousandths of the command) there
EvPoke == /\ Ev.ev = "poke"
          /\ Chk("Place:" \o Ev.by, Near(Ev.at, Want(Ev.q), Ev.tol))
          /\ Chk("Height:" \o Ev.by, Abs(Ev.height - Sign*1000) <= Ev.htol)
\* differences in billionths of the largest value
EvLinear == /\ Ev.ev = "linear"
            /\ Chk("Superposition:" \o Ev.by, Ev.err <= 1000)
            /\ Chk("CommandsUnchanged:" \o Ev.by, Ev.kept)
EvSame == Ev.ev = "same" /\ Chk(Ev.name, Ev.err <= Ev.tol)
EvCentres == /\ Ev.ev = "centres"
             /\ Chk("CentreList", \A i \in 1..Len(Ev.at) :
                  LET q == <<(i-1) \div N, (i-1) % N>> IN Near(Ev.at[i], Want(q), 1))
EvQuant == /\ Ev.ev = "quant"
           /\ \A i \in 1..Len(Ev.v) : Chk("Discretised:" \o Ev.how,
                 Ev.got[i] = Steps(Ev.how, Ev.v[i], Ev.step)*Ev.step)
TraceNext == More /\ l' = l + 1 /\ tid' = tid
             /\ (EvPoke \/ EvLinear \/ EvSame \/ EvCentres \/ EvQuant)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
