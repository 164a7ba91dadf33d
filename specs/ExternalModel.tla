---------------------------- MODULE ExternalModel ----------------------------
(* Operations ask for runs of the prescription; the runs of one operation may *)
(* start in any order, up to Threads of them at a time.  A run takes the      *)
(* options when it starts and reads its commands and polarisation when it is  *)
(* evaluated: with Private copies other runs cannot change them in between.   *)
EXTENDS External, TLC, Json
CONSTANTS MaxOps, Threads, Private, Cfgs
VARIABLES c, st, hist, todo, live, done, shared
vars == <<c, st, hist, todo, live, done, shared>>
Start == [cmd |-> <<0, 0>>, used |-> {1, 2}, par |-> FALSE, pol |-> 0]
Init == c \in Cfgs /\ st = Start /\ hist = <<>> /\ todo = <<>> /\ live = <<>> /\ done = <<>> /\ shared = 0
Ops == {[k |-> "move", d |-> 1], [k |-> "move", d |-> 2], [k |-> "use", dms |-> {1}], [k |-> "use", dms |-> {2}],
        [k |-> "use", dms |-> {1, 2}], [k |-> "par"], [k |-> "norm"], [k |-> "band"], [k |-> "sub", si |-> c.ns-1],
        [k |-> "field", si |-> 0, wi |-> c.nw-1], [k |-> "raw", si |-> c.ns-1, wi |-> 0], [k |-> "est"], [k |-> "sens"]}
Useful(op) == CASE op.k = "use" -> op.dms # st.used [] OTHER -> TRUE
Idle == todo = <<>> /\ live = <<>>
Begin == /\ Idle /\ Len(hist) < MaxOps
         /\ \E op \in Ops : /\ Useful(op) /\ hist' = Append(hist, op)
              /\ todo' = Runs(c, st, op) /\ done' = <<>> /\ live' = <<>> /\ st' = After(c, st, op)
              /\ shared' = IF op.k = "est" THEN Average(Pols(c)) ELSE shared
         /\ c' = c
Add(b, r) == IF r \in DOMAIN b THEN [b EXCEPT ![r] = @ + 1] ELSE b @@ (r :> 1)
Without(s, i) == [j \in 1..(Len(s)-1) |-> IF j < i THEN s[j] ELSE s[j+1]]
Go == /\ todo # <<>> /\ Len(live) < (IF st.par THEN Threads ELSE 1)
      /\ todo' = Tail(todo) /\ live' = Append(live, Head(todo))
      /\ shared' = IF Private THEN shared ELSE Head(todo).pol
      /\ UNCHANGED <<c, st, hist, done>>
End == /\ \E i \in 1..Len(live) : /\ live' = Without(live, i)
             /\ done' = Add(done, [live[i] EXCEPT !.pol = IF Private THEN @ ELSE shared])
       /\ UNCHANGED <<c, st, hist, todo, shared>>
Next == Begin \/ Go \/ End
Spec == Init /\ [][Next]_vars
\* the state the last operation began in
RECURSIVE Fold(_, _)
Fold(s, h) == IF h = <<>> THEN s ELSE Fold(After(c, s, Head(h)), Tail(h))
Was == Fold(Start, SubSeq(hist, 1, Len(hist)-1))
IsBagOf(b, t) == DOMAIN b = {t[i] : i \in 1..Len(t)} /\ \A r \in DOMAIN b : b[r] = Count(t, r)
EveryRunOnce == (Idle /\ hist # <<>>) => IsBagOf(done, Runs(c, Was, hist[Len(hist)]))
PresentCommands == \A r \in DOMAIN done : /\ r.a = Cmd(c, Was, 1) /\ r.b = Cmd(c, Was, 2)
\* a run moves the source or takes the mask out only to normalise
ModesOnlyForSensitivity == \A r \in DOMAIN done : r.z # c.z => hist[Len(hist)].k = "sens"
OnlyToNormalise == \A r \in DOMAIN done : (r.off \/ ~r.fpm) => hist[Len(hist)].k \in {"norm", "raw"}
Emit == (Idle /\ Len(hist) = MaxOps /\ todo = <<>>) => PrintT("@@SCN " \o ToJson([c |-> c, prog |-> hist]))
=============================================================================
