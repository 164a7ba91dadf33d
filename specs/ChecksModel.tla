---------------------------- MODULE ChecksModel -----------------------------
EXTENDS Checks, TLC, Json
VARIABLES val, name, exc
vars == <<val, name, exc>>
Scalars == {[kind |-> k, sign |-> s] : k \in RealKinds \cup ComplexKinds, s \in {-1, 0, 1}}
           \ {[kind |-> "npuint", sign |-> -1]}
Arrays == ({[kind |-> k, elem |-> e, shape |-> s] : k \in ArrayKinds, e \in Elems,
             s \in {<<0>>, <<0, 0>>, <<0, 3>>, <<3, 0>>, <<0, 2, 2>>, <<1>>, <<3>>, <<1, 1>>, <<2, 3>>, <<3, 3>>, <<2, 2, 2>>, <<1, 2, 1>>, <<1, 1, 1, 1>>}}
          \ {[kind |-> "list", elem |-> e, shape |-> s] : e \in Elems, s \in {<<0>>, <<0, 0>>, <<0, 3>>, <<3, 0>>, <<0, 2, 2>>}})
          \cup {[kind |-> "array", elem |-> e, shape |-> <<>>] : e \in Elems}
Rest == {[kind |-> k] : k \in OtherKinds \cup TextKinds \cup {"bool", "pixel", "interpixel"}}
Text(v) == v.kind \in {"pixel", "interpixel"}
Init == /\ val \in Scalars \cup Arrays \cup Rest
        /\ name \in Names /\ exc \in {"TypeError", "ValueError", "KeyError"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* stronger conditions imply weaker ones
Implies == LET h(c) == Holds(c, val) IN
  /\ h("real_positive_scalar") => h("real_nonnegative_scalar")
  /\ h("real_nonnegative_scalar") => h("real_scalar")
  /\ h("positive_scalar_integer") <=> (h("scalar_integer") /\ h("real_positive_scalar"))
  /\ h("nonnegative_scalar_integer") <=> (h("scalar_integer") /\ h("real_nonnegative_scalar"))
  /\ h("twoD_square_array") => h("twoD_array")
  /\ ~(h("oneD_array") /\ h("twoD_array")) /\ ~(h("twoD_array") /\ h("threeD_array"))
  /\ h("centering") => ~h("real_scalar")
Emit == PrintT("@@SCN " \o ToJson([val |-> val, name |-> name, exc |-> exc]))
=============================================================================
