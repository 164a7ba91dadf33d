------------------------- MODULE NormalisationModel -------------------------
(* Normalising computes the peak of each model, one at a time and in any     *)
(* order when parallel, with the model's units reset to one meanwhile; then  *)
(* images are taken in the stored units.                                     *)
EXTENDS Normalisation, TLC, Json
CONSTANTS Cmds, Nops
VARIABLES prog, s, unit, pc, todo, want
vars == <<prog, s, unit, pc, todo, want>>
None == [cmd |-> 9, ab |-> 9]
Start == [cmd |-> 0, ab |-> 0]
Init == prog = <<>> /\ s = Start /\ unit = [m \in Models |-> Start] /\ pc = "idle" /\ todo = {} /\ want = Start
Ops == {<<"move", c>> : c \in Cmds} \cup {<<"aberrate", 0>>, <<"serial", 0>>, <<"parallel", 0>>}
Do == /\ pc = "idle" /\ Len(prog) < Nops
      /\ \E op \in Ops : /\ op[1] = "move" => op[2] # s.cmd
                         /\ prog' = Append(prog, op) /\ s' = Moved(s, op) /\ want' = Unit(want, s, op)
                         /\ IF op[1] \in {"serial", "parallel"}
                            THEN pc' = "norm" /\ todo' = Models /\ unit' = [m \in Models |-> None]
                            ELSE pc' = pc /\ todo' = todo /\ unit' = unit
Rank(m) == CASE m = "compact" -> 1 [] m = "eval" -> 2 [] OTHER -> 3
Peak == /\ pc = "norm" /\ todo # {}
        /\ \E m \in todo : /\ prog[Len(prog)][1] = "serial" => \A n \in todo : Rank(m) <= Rank(n)
                           /\ unit' = [unit EXCEPT ![m] = s] /\ todo' = todo \ {m}
        /\ UNCHANGED <<prog, s, pc, want>>
Finish == /\ pc = "norm" /\ todo = {} /\ pc' = "idle" /\ UNCHANGED <<prog, s, unit, todo, want>>
Next == Do \/ Peak \/ Finish
Spec == Init /\ [][Next]_vars
OneUnit == pc = "idle" => \A m \in Models : unit[m] = want
\* the reference source has unit peak right after normalising
UnitPeak == (pc = "idle" /\ prog # <<>> /\ prog[Len(prog)][1] \in {"serial", "parallel"}) => \A m \in Models : unit[m] = s
Twice == pc = "idle" /\ Len(prog) >= 2 /\ prog[Len(prog)][1] = "serial" /\ prog[Len(prog)-1][1] = "parallel"
           => \A m \in Models : unit[m] = s
Emit == (pc = "idle" /\ Len(prog) = Nops) => PrintT("@@SCN " \o ToJson([prog |-> prog]))
=============================================================================
