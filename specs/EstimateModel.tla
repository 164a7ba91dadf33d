--------------------------- MODULE EstimateModel ----------------------------
(* Workers evaluate every (mode, wavelength) in any order; the results are   *)
(* put back in order and averaged.                                           *)
EXTENDS Estimate, TLC, Json
CONSTANTS MaxS, MaxW, MaxT, ZernLists, Workers, MaxJobs
VARIABLES cfg, todo, at, res
vars == <<cfg, todo, at, res>>
Ms(c) == AllModes(c.ns, TRUE, c.zs, {}, c.nst)
Jobs(c) == (1..Len(Ms(c))) \X (0..(c.nw-1))
None == <<0, 0>>
Init == /\ cfg \in [ns : 1..MaxS, nw : 1..MaxW, nst : 1..MaxT, zs : ZernLists]
        /\ todo = Jobs(cfg) /\ at = [w \in Workers |-> None]
        /\ res = [j \in Jobs(cfg) |-> -99]
Small == Cardinality(Jobs(cfg)) <= MaxJobs
Val(j) == LET m == Ms(cfg)[j[1]] IN GRe(Rank(cfg.ns, cfg.nw, TRUE, m[1], j[2]), 0, m[3], m[2], 0)
Take(w) == /\ Small /\ at[w] = None /\ \E j \in todo : at' = [at EXCEPT ![w] = j] /\ todo' = todo \ {j}
           /\ UNCHANGED <<cfg, res>>
Finish(w) == /\ at[w] # None /\ res' = [res EXCEPT ![at[w]] = Val(at[w])]
             /\ at' = [at EXCEPT ![w] = None] /\ UNCHANGED <<cfg, todo>>
Idle == todo = {} /\ \A w \in Workers : at[w] = None
Next == (\E w \in Workers : Take(w) \/ Finish(w)) \/ ((~Small \/ Idle) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Reassembled == Idle => \A m \in 1..Len(Ms(cfg)) :
   SumOver(0..(cfg.nw-1), [w \in 0..(cfg.nw-1) |-> LW(cfg.nw, w)*res[<<m, w>>]])
     = MeanRe(cfg.ns, cfg.nw, TRUE, 0, Ms(cfg)[m], 0)
EveryPistonOnce == \A si \in 0..(cfg.ns-1), s \in 0..(cfg.nst-1) :
   Cardinality({i \in 1..Len(Ms(cfg)) : Ms(cfg)[i] = <<si, 1, s>>}) = 1
Emit == (todo = Jobs(cfg)) => PrintT("@@SCN " \o ToJson([ns |-> cfg.ns, nw |-> cfg.nw,
   sim |-> TRUE, nst |-> cfg.nst, zs |-> cfg.zs,
   rank |-> [i \in 1..cfg.ns |-> [j \in 1..cfg.nw |-> Rank(cfg.ns, cfg.nw, TRUE, i-1, j-1)]],
   lden |-> LDen(cfg.nw)]))
=============================================================================
