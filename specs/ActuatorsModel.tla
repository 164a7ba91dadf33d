--------------------------- MODULE ActuatorsModel ---------------------------
(* The loop as a machine that carries the selected actuators from iteration   *)
(* to iteration, against the history-based definition of Actuators.           *)
EXTENDS Actuators, TLC, Json
CONSTANTS MaxItr, Tables, Thrs, TieSets, Weights
VARIABLES cfg, rows, used, V, jac
vars == <<cfg, rows, used, V, jac>>
Init == /\ cfg \in [t : Tables, thr : Thrs, ties : TieSets, w : Weights]
        /\ WholeTies(cfg.t, cfg.ties)
        /\ cfg.thr < 0 => cfg.ties = << <<>>, <<>> >>
        /\ rows = <<>> /\ used = [d \in {1, 2} |-> Act] /\ V = V0(cfg.ties) /\ jac = [dms |-> {}, act |-> <<{}, {}>>]
Row == [dms : {12, 1, 2}, relin : {0, 1}]
Next == \/ /\ Len(rows) < MaxItr
           /\ \E r \in Row :
              LET rs == Append(rows, r)
                  i == Len(rs)
                  D == Dms(r.dms)
                  before == [d \in {1, 2} |-> IF d \in D /\ Anew(rs, i) THEN Act ELSE used[d]]
                  after == [d \in {1, 2} |-> IF d \in D /\ Anew(rs, i) THEN Usable(cfg.t, d, cfg.thr, cfg.ties[d]) ELSE used[d]]
              IN /\ Followable(rs)
                 /\ i = 1 => r.relin = 1
                 /\ rows' = rs /\ used' = after
                 /\ jac' = IF Relin(rs, i) THEN [dms |-> D, act |-> [d \in {1, 2} |-> before[d] \cap after[d]]] ELSE jac
                 /\ V' = Moved(V, after, rs, i, cfg.t, cfg.ties, cfg.w)
           /\ UNCHANGED cfg
        \/ Len(rows) = MaxItr /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
N == Len(rows)
SelectionIsLatest == N > 0 => \A d \in Dms(rows[N].dms) : used[d] = UsedAt(rows, N, d, cfg.t, cfg.thr, cfg.ties)
ResponseMatchesSelection == N > 0 => \A d \in Dms(rows[N].dms) : d \in jac.dms /\ jac.act[d] = used[d]
TiedTogether == \A d \in {1, 2} : \A k \in 1..Len(cfg.ties[d]) : V[d][cfg.ties[d][k][1]] = V[d][cfg.ties[d][k][2]]
NoneForgotten == \A d \in {1, 2} : used[d] # {}
UnusedStay == [][Len(rows') = N+1 => \A d \in {1, 2} : \A a \in Act : (d \notin Dms(rows'[N+1].dms) \/ (a \notin used'[d] /\ a \notin Followers(cfg.ties[d]))) =>
                   V'[d][a] = V[d][a]]_rows
Emit == N = MaxItr => PrintT("@@SCN " \o ToJson([t |-> cfg.t, thr |-> cfg.thr, ties |-> cfg.ties, w |-> cfg.w, rows |-> rows,
   cls |-> [d \in {1, 2} |-> [a \in Act |-> Cls(cfg.t, d, a)]], v0 |-> V0(cfg.ties),
   e |-> [d \in {1, 2} |-> [i \in 1..MaxItr |-> [a \in Act |-> Eq(d, a, i)]]]]))
=============================================================================
