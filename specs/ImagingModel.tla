---------------------------- MODULE ImagingModel ----------------------------
(* Workers evaluate the (wavelength, polarisation, star) combinations of an  *)
(* image in any order.  Each sets the polarisation state of its own copy of  *)
(* the configuration, evaluates the model, and hands the result in; the      *)
(* image is added up afterwards.                                             *)
EXTENDS Imaging, TLC, Json
CONSTANTS MaxS, MaxW, MaxP, MaxT, Workers, MaxJobs
VARIABLES cfg, todo, at, reg, res
vars == <<cfg, todo, at, reg, res>>

Jobs(c) == (0..(Len(Keys(c.ns, c.nw, c.sim))-1)) \X (0..(c.np-1)) \X (0..(c.nst-1))
None == <<-1, -1, -1>>
Init == /\ cfg \in [ns : 1..MaxS, nw : 1..MaxW, sim : {TRUE}, np : 1..MaxP, nst : 1..MaxT]
        /\ todo = Jobs(cfg)
        /\ at = [w \in Workers |-> None]
        /\ reg = [w \in Workers |-> -1]
        /\ res = {}
Small == Cardinality(Jobs(cfg)) <= MaxJobs
Take(w) == /\ Small /\ at[w] = None /\ todo # {}
           /\ \E j \in todo : at' = [at EXCEPT ![w] = j] /\ todo' = todo \ {j}
                              /\ reg' = [reg EXCEPT ![w] = j[2]]
           /\ UNCHANGED <<cfg, res>>
Finish(w) == /\ at[w] # None
             /\ res' = res \cup {<<at[w], FSq(at[w][1], reg[w], at[w][3], 0)>>}
             /\ at' = [at EXCEPT ![w] = None]
             /\ UNCHANGED <<cfg, todo, reg>>
Next == (\E w \in Workers : Take(w) \/ Finish(w))
        \/ ((~Small \/ (todo = {} /\ \A w \in Workers : at[w] = None)) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Done == todo = {} /\ \A w \in Workers : at[w] = None
OneResultEach == \A a, b \in res : a[1] = b[1] => a = b
ParallelIsSerial ==
  Done => SumOver(res, [x \in res |-> RankWeight(cfg.ns, cfg.nw, cfg.sim, x[1][1])*x[2]])
          = BandImage(cfg.ns, cfg.nw, cfg.sim, cfg.np, cfg.nst, 0)
WeightsComplete == (todo = Jobs(cfg)) =>
   LET n == Len(Keys(cfg.ns, cfg.nw, cfg.sim))
   IN SumOver(0..(n-1), [r \in 0..(n-1) |-> RankWeight(cfg.ns, cfg.nw, cfg.sim, r)])
      = WDen(cfg.ns, cfg.nw, cfg.sim)
Emit == (todo = Jobs(cfg)) => PrintT("@@SCN " \o ToJson([ns |-> cfg.ns, nw |-> cfg.nw,
   sim |-> cfg.sim, np |-> cfg.np, nst |-> cfg.nst,
   rank |-> [i \in 1..cfg.ns |-> [j \in 1..cfg.nw |-> Rank(cfg.ns, cfg.nw, cfg.sim, i-1, j-1)]],
   sden |-> SDen(cfg.ns, cfg.nw, cfg.sim), lden |-> LDen(cfg.nw)]))
=============================================================================
