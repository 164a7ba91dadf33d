------------------------------- MODULE Config -------------------------------
(* Configuration objects: every path has a definition, which is a number, a  *)
(* lazily evaluated expression over another path of the same configuration,  *)
(* or one over the context it was loaded with.                               *)
EXTENDS Integers, Sequences, FiniteSets

Missing == [t |-> "missing"]
Circular == [t |-> "circular"]
Val(v) == [t |-> "val", v |-> v]

\* d: path -> definition; k: value of the context variable, or Missing
RECURSIVE Read(_, _, _, _)
Read(d, k, p, seen) ==
  IF p \notin DOMAIN d THEN Missing
  ELSE LET e == d[p] IN
    CASE e.k = "int" -> Val(e.v)
      [] e.k = "null" -> [t |-> "null"]
      [] e.k = "list" -> [t |-> "list", s |-> e.s]
      [] e.k = "ctx" -> Val(k + e.v)
      [] e.k = "ref" -> IF p \in seen THEN Circular
                        ELSE LET r == Read(d, k, e.p, seen \cup {p})
                             IN IF r.t = "val" THEN Val(r.v + e.v)
                                ELSE IF r.t \in {"null", "list"} THEN [t |-> "error"] ELSE r
Get(d, k, p) == Read(d, k, p, {})
Put(d, p, e) == [x \in DOMAIN d \cup {p} |-> IF x = p THEN e ELSE d[x]]
\* merging appends to lists and replaces anything else
Merge(d, p, e) == Put(d, p, IF p \in DOMAIN d /\ d[p].k = "list" /\ e.k = "list"
                            THEN [k |-> "list", s |-> d[p].s \o e.s] ELSE e)
Write(d, p, e, how) == IF how = "merge" THEN Merge(d, p, e) ELSE Put(d, p, e)
=============================================================================
