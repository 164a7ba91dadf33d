---------------------------- MODULE ConfigModel -----------------------------
(* Histories of loading, writing, merging and copying configurations.        *)
EXTENDS Config, TLC, Json
CONSTANTS Paths, Depth, Few
VARIABLES objs, hist, first
vars == <<objs, hist, first>>

Defs == {[k |-> "none"], [k |-> "int", v |-> 1], [k |-> "ctx", v |-> 2], [k |-> "list", s |-> <<1, 2>>]}
        \cup {[k |-> "ref", p |-> p, v |-> 3] : p \in Paths}
Files == [Paths -> Defs]
Some(f) == [p \in {x \in Paths : f[x].k # "none"} |-> f[p]]
\* the second file is one of a few
Others == {[p \in Paths |-> IF p = "b" THEN [k |-> "int", v |-> 40] ELSE [k |-> "none"]],
           [p \in Paths |-> IF p = "a" THEN [k |-> "ctx", v |-> 5] ELSE [k |-> "ref", p |-> "a", v |-> 6]]}
Obj(d, c) == [d |-> d, c |-> c]
Init == \E f \in Files :
          /\ first = f /\ objs = <<Obj(Some(f), 100)>> /\ hist = <<>>
Add(h) == hist' = Append(hist, h)
Step ==
  \/ \E f \in Others, same \in BOOLEAN :
       /\ Len(objs) < 3
       /\ objs' = Append(objs, Obj(Some(f), 200))
       /\ Add([op |-> "load", f |-> f, same |-> same])
  \/ \E o \in 1..Len(objs), p \in Paths, how \in {"field", "index", "merge"} :
     \E e \in {[k |-> "int", v |-> (1000 * Len(hist)) + 500]}
             \cup (IF how = "field" THEN {} ELSE {[k |-> "null"], [k |-> "list", s |-> <<7>>]}) :
       /\ objs' = [objs EXCEPT ![o].d = Write(@, p, e, how)]
       /\ Add([op |-> "put", o |-> o, p |-> p, how |-> how, e |-> e])
  \/ \E o \in 1..Len(objs) :
       /\ Len(objs) < 3
       /\ objs' = Append(objs, objs[o])
       /\ Add([op |-> "copy", o |-> o])
Next == (Len(hist) < Depth /\ Step /\ UNCHANGED first) \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* evaluation ends, and only on cycles without a value
Total == \A o \in 1..Len(objs), p \in Paths :
   LET r == Get(objs[o].d, objs[o].c, p) IN r.t \in {"val", "missing", "circular", "null", "list", "error"}
\* one object changes at most per step, and loading or copying changes none
Isolation == [][\A o \in 1..Len(objs) :
    (Len(hist') > Len(hist) /\ (hist'[Len(hist')].op # "put" \/ hist'[Len(hist')].o # o))
       => \A p \in Paths : Get(objs'[o].d, objs'[o].c, p) = Get(objs[o].d, objs[o].c, p)]_vars
Emit == Len(hist) = Depth =>
   PrintT("@@SCN " \o ToJson([first |-> first, hist |-> hist]))
=============================================================================
