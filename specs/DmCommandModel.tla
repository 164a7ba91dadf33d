--------------------------- MODULE DmCommandModel ---------------------------
(* A mirror receives any sequence of commands; constraints are enforced      *)
(* after each (the surface is rendered), and pins are remembered.            *)
EXTENDS DmCommand, TLC, Json
CONSTANTS N, Vals, MaxLen, Setups
VARIABLES su, V, pin, hist
vars == <<su, V, pin, hist>>
Acts == 1..N
Lo == [a \in Acts |-> su.lo]
Hi == [a \in Acts |-> su.hi]
Init == /\ su \in Setups
        /\ V = [a \in Acts |-> 0]
        /\ pin = [a \in Acts |-> su.pin[a]]
        /\ hist = <<>>
Command(C) == /\ Len(hist) < MaxLen
              /\ V' = Enforced(C, su.dead, pin, su.ties, Lo, Hi)
              /\ pin' = NewPin(C, su.dead, pin, Lo, Hi)
              /\ hist' = Append(hist, C)
              /\ UNCHANGED su
\* a step relative to the command in force
Next == \/ \E C \in [Acts -> Vals] : Command(C)
        \/ Len(hist) = MaxLen /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Followers == {su.ties[i][2] : i \in 1..Len(su.ties)}
InRange == hist # <<>> => \A a \in Acts : V[a] >= su.lo /\ V[a] <= su.hi
DeadFixed == hist # <<>> => \A a \in su.dead : su.pin[a] = Free => V[a] = 0
PinnedFixed == hist # <<>> => \A a \in Acts \ Followers : pin[a] # Free => V[a] = pin[a]
UserPinsKept == \A a \in Acts : su.pin[a] # Free => pin[a] = su.pin[a]
TiedEqual == hist # <<>> => \A i \in 1..Len(su.ties) : V[su.ties[i][1]] = V[su.ties[i][2]]
Idempotent == hist # <<>> => /\ Enforced(V, su.dead, pin, su.ties, Lo, Hi) = V
                            /\ NewPin(V, su.dead, pin, Lo, Hi) = pin
AdmissibleUnchanged == hist # <<>> =>
   LET C == hist[Len(hist)]
       ok == /\ \A a \in Acts : C[a] >= su.lo /\ C[a] <= su.hi
             /\ \A a \in su.dead : C[a] = 0
             /\ \A a \in Acts : pin[a] # Free => C[a] = pin[a]
             /\ \A i \in 1..Len(su.ties) : C[su.ties[i][1]] = C[su.ties[i][2]]
   IN ok => V = C
PinsOnlyGrow == [][\A a \in Acts : pin[a] # Free => pin'[a] = pin[a]]_vars
Emit == (Len(hist) = MaxLen) => PrintT("@@SCN " \o ToJson([n |-> N, lo |-> su.lo, hi |-> su.hi,
   dead |-> [a \in Acts |-> IF a \in su.dead THEN 1 ELSE 0], pin |-> su.pin, ties |-> su.ties, cmds |-> hist]))
=============================================================================
