---------------------------- MODULE ProbingModel ----------------------------
(* The estimator as a sequence of commands and exposures.  The field of each *)
(* mode is a small Gaussian integer, a probe of phase p adds a Gaussian      *)
(* integer of that phase (N = 2: the four units), so that recovery from the  *)
(* measured intensities alone is exact and is checked for every field.       *)
EXTENDS Probing, TLC, Json
CONSTANTS MaxNs, MaxNst, Pairs, Fields
VARIABLES cfg, k, cmd, nominal, imgs, inuse, E
vars == <<cfg, k, cmd, nominal, imgs, inuse, E>>
Zero == <<0, 0>>
\* probes of two pairs: 1, -1, i, -i (times an amplitude)
Unit(p) == CASE p % 4 = 0 -> <<1, 0>> [] p % 4 = 1 -> <<0, 1>> [] p % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
Sq(e) == (e[1]*e[1]) + (e[2]*e[2])
Add(a, b) == <<a[1]+b[1], a[2]+b[2]>>
None == <<"nominal", 0>>
Init == /\ cfg \in [which : 1..2, dms : {{1}, {2}, {1, 2}}, n : Pairs, est : {"square", "rect"},
                    axis : {"x", "y", "alternate"}, itr : 0..1, ns : 1..MaxNs, nst : 1..MaxNst, jac : BOOLEAN]
        /\ (cfg.est = "rect" => cfg.axis = "x") /\ (cfg.est = "square" => cfg.nst = 1)
        /\ k = 0 /\ cmd = [d \in 1..2 |-> None] /\ nominal = [d \in 1..2 |-> None]
        /\ inuse = cfg.dms /\ imgs = <<>>
        /\ E \in (IF cfg.n = 2 /\ cfg.which = 1 THEN Fields \X Fields ELSE {<<0, 0>>})
Total == NImages(cfg.n, cfg.ns, cfg.nst)
Step == /\ k < Total /\ k' = k + 1
        /\ LET im == ImageAt(cfg.n, cfg.ns, k+1)
               new == [d \in 1..2 |-> IF im[3] > 0 /\ d = cfg.which
                                      THEN <<AxisOf(cfg.est, cfg.axis, cfg.itr, im[3]), PhaseOf(cfg.n, im[3])>> ELSE <<"nominal", 0>>]
           IN /\ cmd' = new
              /\ imgs' = Append(imgs, [at |-> im, cmd |-> new,
                    inten |-> Sq(Add(E, IF im[3] = 0 \/ cfg.n # 2 THEN Zero ELSE Unit(PhaseOf(2, im[3]))))])
        /\ inuse' = cfg.dms \cup {cfg.which} /\ UNCHANGED <<cfg, nominal, E>>
Done == k = Total /\ cmd # nominal /\ cmd' = nominal /\ inuse' = cfg.dms /\ UNCHANGED <<cfg, k, nominal, imgs, E>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == k = Total /\ cmd = nominal
PairsAreOpposite == \A i \in 1..cfg.n : Opposite(cfg.n, PhaseOf(cfg.n, (2*i)-1), PhaseOf(cfg.n, 2*i))
PhasesDiffer == Cardinality({PhaseOf(cfg.n, i) % (2*cfg.n) : i \in 1..(2*cfg.n)}) = 2*cfg.n
OnlyTheProbingMirrorMoves == \A i \in 1..Len(imgs) : imgs[i].cmd[3-cfg.which] = <<"nominal", 0>>
EveryImageOnce == Finished => /\ Len(imgs) = Total
   /\ \A i, j \in 1..Len(imgs) : i # j => imgs[i].at # imgs[j].at
NoSideEffects == Finished => inuse = cfg.dms /\ cmd = nominal
SamePairSameAxis == \A i \in 1..cfg.n : AxisOf(cfg.est, cfg.axis, cfg.itr, (2*i)-1) = AxisOf(cfg.est, cfg.axis, cfg.itr, 2*i)
AlternationSwitches == cfg.axis = "alternate" => \A i \in 1..cfg.n :
   AxisOf(cfg.est, cfg.axis, 0, 2*i) # AxisOf(cfg.est, cfg.axis, 1, 2*i)
\* (I+ - I-)/4 is the projection on the probe; two orthogonal probes give E
FieldRecovered == (Finished /\ cfg.n = 2 /\ cfg.which = 1 /\ cfg.ns*cfg.nst = 1) =>
   /\ imgs[2].inten - imgs[3].inten = 4*E[1]
   /\ imgs[4].inten - imgs[5].inten = 4*E[2]
   /\ ((imgs[2].inten + imgs[3].inten) \div 2) - imgs[1].inten = 1
ModesDistinct == \A a, b \in (0..(cfg.nst-1)) \X (0..(cfg.ns-1)) : a # b => ModeOf(cfg.ns, a[1], a[2]) # ModeOf(cfg.ns, b[1], b[2])
Terminates == <>Finished
Emit == (k = 0 /\ E \in {<<0, 0>>, <<1, 1>>} /\ (cfg.n = 2 /\ cfg.which = 1 => E = <<1, 1>>)) =>
   PrintT("@@SCN " \o ToJson([which |-> cfg.which, dms |-> cfg.dms, n |-> cfg.n, est |-> cfg.est, axis |-> cfg.axis,
      itr |-> cfg.itr, ns |-> cfg.ns, nst |-> cfg.nst, jac |-> cfg.jac]))
=============================================================================
