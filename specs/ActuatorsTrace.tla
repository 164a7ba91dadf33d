--------------------------- MODULE ActuatorsTrace ---------------------------
EXTENDS TraceLib, Actuators
VARIABLES i, V
vars == <<tid, l, i, V>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ i = 0 /\ V = V0(Scn.ties)
Rows == Scn.rows
Set(s) == {s[k] : k \in 1..Len(s)}
Used(k) == [d \in {1, 2} |-> UsedAt(Rows, k, d, Scn.t, Scn.thr, Scn.ties)]
Before(k) == [d \in {1, 2} |-> IF Anew(Rows, k) THEN Act ELSE Used(k)[d]]
Sorted(s) == \A k \in 1..(Len(s)-1) : s[k] < s[k+1]
EvJac == /\ Ev.ev = "jac" /\ UNCHANGED <<i, V>>
         /\ Chk("ResponseOnlyWhenScheduled", Relin(Rows, i+1))
         /\ Chk("ResponseForEveryCandidate", \A d \in Dms(Rows[i+1].dms) : Set(Ev.act[d]) = Before(i+1)[d])
EvEst == /\ Ev.ev = "est" /\ UNCHANGED <<i, V>>
         /\ Chk("CommandsBeforeStep", Ev.v = V)
EvCtrl == /\ Ev.ev = "ctrl" /\ i' = i + 1
          /\ Chk("UsableActuators", \A d \in Dms(Rows[i+1].dms) : Set(Ev.act[d]) = Used(i+1)[d] /\ Sorted(Ev.act[d]))
          /\ Chk("ResponseColumnsAreTheUsableActuators", \A d \in Dms(Rows[i+1].dms) : LET t == Scn.ties[d] IN
               Ev.cols[d] = [k \in 1..Len(Ev.act[d]) |->
                  LET a == Ev.act[d][k] IN IF a \in Followers(t) \/ GroupOf(Scn.t, d, t, a) = {} THEN 0
                                           ELSE CHOOSE b \in GroupOf(Scn.t, d, t, a) : \A c \in GroupOf(Scn.t, d, t, a) : b <= c])
          /\ V' = Moved(V, Used(i+1), Rows, i+1, Scn.t, Scn.ties, Scn.w)
EvEnd == /\ Ev.ev = "end" /\ UNCHANGED <<i, V>>
         /\ Chk("EveryIterationDone", i = Len(Rows))
         /\ Chk("FinalCommands", Ev.v = V)
         /\ Chk("WholeCommands", Ev.frac <= 1000)
(* the response of the optics themselves: own column, plus that of the tied partner *)
Column(d, a) == IF a \in Followers(Scn.ties[d]) THEN {}
                ELSE {9*(d-1) + b : b \in {a} \cup {p[2] : p \in {q \in Set(Scn.ties[d]) : q[1] = a}}}
EvResponse == /\ Ev.ev = "response" /\ UNCHANGED <<i, V>>
              /\ Chk("ResponseOfTheOpticsIsWhole", Ev.err <= 1000)
              /\ Chk("ResponseOfTiedActuators", \A d \in {1, 2} : \A k \in 1..Len(Ev.act[d]) :
                      Set(Ev.cols[d][k]) = Column(d, Ev.act[d][k]) /\ Len(Ev.cols[d][k]) = Cardinality(Column(d, Ev.act[d][k])))
              /\ Chk("ResponseForEveryUsedActuator", \A d \in {1, 2} : Len(Ev.cols[d]) = Len(Ev.act[d]))
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvJac \/ EvEst \/ EvCtrl \/ EvEnd \/ EvResponse)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
