-------------------------- MODULE SavedStatesModel --------------------------
EXTENDS SavedStates, TLC, Json
CONSTANTS MaxLen
VARIABLES prog, st, runs
vars == <<prog, st, runs>>
R(w, a, b, s) == [lam |-> w, a |-> a, b |-> b, save |-> s]
Ops == {[op |-> "end"]} \cup
       {[op |-> "run", runs |-> <<R(w, a, 1 - a, s)>>] : w \in {1, 2}, a \in {0, 1}, s \in BOOLEAN} \cup
       {[op |-> "file", runs |-> [i \in 1..Len(ws) |-> R(ws[i], 1, 0, TRUE)]] : ws \in {<<3>>, <<2, 1>>, <<1, 3, 2>>}} \cup
       {[op |-> "multi", runs |-> [i \in 1..Len(ws) |-> R(ws[i], 0, 0, TRUE)]] : ws \in {<<3, 1>>, <<2, 1, 3>>}} \cup
       {[op |-> "multi", runs |-> [i \in 1..3 |-> R(2, i % 2, i \div 2, FALSE)]],
        [op |-> "multi", runs |-> [i \in 1..2 |-> R(i, i - 1, 2 - i, FALSE)]],
        [op |-> "multi", runs |-> [i \in 1..1 |-> R(3, 1, 0, TRUE)]]}
Init == prog = <<>> /\ st = Begin /\ runs = {}
Next == /\ Len(prog) < MaxLen
        /\ \E op \in (Ops \cup IF st.on THEN {} ELSE {[op |-> "init"]}) :
             /\ prog' = Append(prog, op) /\ st' = Step(st, op)
             /\ runs' = IF op.op \in {"init", "end"} THEN {} ELSE runs \cup {<<r.lam, r.a, r.save>> : r \in {op.runs[i] : i \in 1..Len(op.runs)}}
Spec == Init /\ [][Next]_vars
\* nothing is held or left outside a session, and everything held is on disk
Tidy == (~st.on => (st.files = {} /\ \A w \in Lams : st.held[w] = None)) /\ \A w \in Lams : st.held[w] # None => w \in st.files
\* a state held came from a saving run of the session, and once held stays
Honest == \A w \in Lams : st.held[w] # None => <<w, st.held[w], TRUE>> \in runs
Keeps == [][\A w \in Lams : (st.held[w] # None /\ prog'[Len(prog')].op # "end") => st'.held[w] = st.held[w]]_vars
Interesting == \E i \in 1..Len(prog) : prog[i].op = "init"
Emit == (Len(prog) = MaxLen /\ Interesting) => PrintT("@@SCN " \o ToJson(prog))
=============================================================================
