------------------------------ MODULE Defaults -------------------------------
(* Optional settings: each is left out or set; preparing fills in what was   *)
(* left out and keeps what was set.  Values are texts; the numbers on which  *)
(* other defaults depend are integers.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Num(n) == ToString(n)
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN x ELSE x \o "," \o Times(x, n-1)
List(x, n) == "[" \o Times(x, n) \o "]"
Map(n, v) == "map" \o Num(n) \o "*" \o Num(v)
\* defaults that depend on nothing
Plain == [
  flagParallel |-> "False", flagSaveWS |-> "False", flagSVD |-> "False", flagRotation |-> "True",
  flagTrainModel |-> "False", flagUseLearnedJac |-> "False", flagFiber |-> "False", flagLenslet |-> "False",
  flagDMwfe |-> "False", flagApod |-> "False", runLabel |-> "default_label_", propMethodPTP |-> "fft",
  flagImageNoise |-> "False", WspatialDef |-> "[[]]"]
InFull == [flagPROPER |-> "False", ZrmsVal |-> "1e-09", Rsens |-> "[]", indsZnoll |-> "[2,3]", pol_conds |-> "[0]"]
InEst == [flagUseJac |-> "False", ItrStartKF |-> "2", InormProbeMax |-> "0.0001", Ithreshold |-> "0.01"]
InCtrl == [flagUseModel |-> "False"]
InAd == [maxiter |-> "30", maxfun |-> "1000000", maxcor |-> "10", iprint |-> "-1"]
InStar == [count |-> "1", xiOffsetVec |-> "[0]", etaOffsetVec |-> "[0]", weights |-> "[1]"]
InF3 == [VortexSpotDiam |-> "0", VortexSpotOffsets |-> "[0,0]", phaseMaskType |-> "vortex", NstepStaircase |-> "6",
         clocking |-> "0", phaseScaleFac |-> "1"]
InJac == [mftToVortex |-> "False", minimizeNI |-> "False", zerns |-> "[1]", Zcoef |-> "[1]"]
InDetector == [gain |-> "1", darkCurrentRate |-> "0.015", readNoiseStd |-> "1.7", wellDepth |-> "30000", Nexp |-> "1"]
InEval == [res |-> "10"]
InP1 == [IDnorm |-> "0"]
InDm == [orientation |-> "rot0", fitType |-> "linear", dead |-> "[]", pinned |-> "[]", Vpinned |-> "[]", tied |-> "[]",
         Vmin |-> "0", surfFitMethod |-> "lsq", useDifferentiableModel |-> "False"]
\* limits of a mirror: <<Vmax, bias>> as set (0: left out)
VmaxOf(set, sim) == IF set # 0 THEN set ELSE IF sim THEN 1000 ELSE 100
BiasOf(set, vmax) == IF set # 0 THEN set ELSE vmax \div 2
OrElse(set, other) == IF set # 0 THEN set ELSE other
\* allowed texts, in any case
Allowed(key) == CASE key = "centering" -> {"pixel", "interpixel"}
   [] key = "coro" -> {"vc", "vortex", "lc", "aplc", "flc", "splc", "hlc"}
   [] key = "layout" -> {"fourier", "fpm_scale", "proper", "roman_phasec_proper", "wfirst_phaseb_proper"}
   [] key = "estimator" -> {"perfect", "pairwise", "pairwise-square", "pwp-bp-square", "pairwise-rect", "pwp-bp", "pwp-kf"}
   [] key = "controller" -> {"gridsearchefc", "plannedefc", "ad-efc"}
Keys == {"centering", "coro", "layout", "estimator", "controller"}
\* size of the array kept of a stop: the smallest even one that holds it
Kept(n, reach) == IF reach > n THEN n ELSE reach
=============================================================================
