---------------------------- MODULE ConfigTrace -----------------------------
EXTENDS TraceLib, Config
VARIABLE objs
vars == <<tid, l, objs>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ objs = <<>>
Some(f) == [p \in {x \in DOMAIN f : f[x].k # "none"} |-> f[p]]

EvLoad == /\ Ev.ev = "load"
          /\ Chk("ContextUnchanged", Ev.ctxkept)
          /\ Chk("OtherLoadersUnchanged", Ev.yamlkept)
          /\ objs' = Append(objs, [d |-> Some(Ev.f), c |-> Ev.c])
EvPut == /\ Ev.ev = "put"
         /\ objs' = [objs EXCEPT ![Ev.o].d = Write(@, Ev.p, Ev.e, Ev.how)]
EvCopy == /\ Ev.ev = "copy" /\ objs' = Append(objs, objs[Ev.o])
Kind(r) == r.t
EvRead == /\ Ev.ev = "read"
          /\ LET want == Get(objs[Ev.o].d, objs[Ev.o].c, Ev.p)
             IN /\ Chk("ValueByField", Ev.field.t = want.t /\ (want.t = "val" => Ev.field.v = want.v)
                                        /\ (want.t = "list" => Ev.field.s = want.s))
                /\ Chk("ValueByIndex", Ev.index.t = want.t /\ (want.t = "val" => Ev.index.v = want.v)
                                        /\ (want.t = "list" => Ev.index.s = want.s))
          /\ UNCHANGED objs
\* a whole document
EvTree == /\ Ev.ev = "tree"
          /\ Chk("LoadedAsWritten", Ev.got = Ev.want)
          /\ Chk("SavedAndRestored", Ev.again = Ev.want)
          /\ Chk("ProbeDefaults", Ev.defaults)
          /\ UNCHANGED objs
TraceNext == More /\ l' = l + 1 /\ tid' = tid /\ (EvLoad \/ EvPut \/ EvCopy \/ EvRead \/ EvTree)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
