--------------------------- MODULE ResponseModel ----------------------------
(* How a response matrix comes about: the fields at the present commands are *)
(* computed first, then the columns in any order (serially, by several       *)
(* workers, or in slices written to files), then ties are folded in.         *)
(* Between matrices the commands may change.                                 *)
EXTENDS Response, TLC, Json
CONSTANTS Acts, DeadSets, TieSets, Cmds, Nops
VARIABLES dead, ties, prog, cmd, pc, pre, raw, out, done
vars == <<dead, ties, prog, cmd, pc, pre, raw, out, done>>
Methods == {"serial", "parallel", "slices"}
None == 99
Init == /\ dead \in DeadSets /\ ties \in TieSets
        /\ \A t \in ties : {t[1], t[2]} \cap dead = {}
        /\ prog = <<>> /\ cmd = 0 /\ pc = "idle" /\ pre = None
        /\ raw = [a \in Acts |-> {}] /\ out = [a \in Acts |-> {}] /\ done = FALSE

Method == prog[Len(prog)][2]
\* start a matrix at the commands c
Start == /\ pc = "idle" /\ Len(prog) < Nops
         /\ \E c \in Cmds, m \in Methods :
              /\ prog' = Append(prog, <<c, m>>) /\ cmd' = c
         /\ pc' = "fields" /\ done' = FALSE /\ raw' = [a \in Acts |-> {}]
         /\ UNCHANGED <<dead, ties, pre, out>>
Fields == /\ pc = "fields" /\ pre' = cmd /\ pc' = "columns"
          /\ UNCHANGED <<dead, ties, prog, cmd, raw, out, done>>
\* each column on its own; serially the lowest that is missing
Missing == {a \in Acts : raw[a] = {}}
Column == /\ pc = "columns" /\ Missing # {}
          /\ \E a \in Missing :
               /\ Method = "serial" => \A b \in Missing : a <= b
               /\ raw' = [raw EXCEPT ![a] = {<<pre, IF a \in dead THEN {} ELSE {a}>>}]
          /\ UNCHANGED <<dead, ties, prog, cmd, pc, pre, out, done>>
\* fold ties: the first column takes the second, which is emptied
Effect(a) == UNION {x[2] : x \in raw[a]}
Fold == /\ pc = "columns" /\ Missing = {}
        /\ out' = [a \in Acts |-> IF \E t \in ties : t[2] = a THEN {}
                     ELSE Effect(a) \cup UNION {Effect(t[2]) : t \in {u \in ties : u[1] = a}}]
        /\ pc' = "idle" /\ done' = TRUE
        /\ UNCHANGED <<dead, ties, prog, cmd, pre, raw>>
Next == Start \/ Fields \/ Column \/ Fold
Spec == Init /\ [][Next]_vars

AtPresentCommands == done => \A a \in Acts : \A x \in raw[a] : x[1] = cmd
RightColumns == done => \A a \in Acts : out[a] = Moves(a, dead, ties)
EachOnce == done => \A b \in Acts : Cardinality({a \in Acts : b \in out[a]}) <= 1
NothingLost == done => UNION {out[a] : a \in Acts} = Acts \ dead
SetSeq(S) == LET RECURSIVE F(_)
                 F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : TRUE
                                                  IN <<m>> \o F(T \ {m})
             IN F(S)
Emit == (done /\ Len(prog) = Nops) =>
          PrintT("@@SCN " \o ToJson([prog |-> prog, dead |-> SetSeq(dead), ties |-> SetSeq(ties)]))
=============================================================================
