----------------------------- MODULE SavedStates -----------------------------
(* Running prescriptions directly, over lists of wavelengths or parameters,  *)
(* and with the first part of each wavelength saved.  A result is named by   *)
(* the wavelength and the parameters of the two parts it was computed with.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Lams
None == -1
Begin == [on |-> FALSE, held |-> [w \in Lams |-> None], files |-> {}]
\* the parameter of the first part that a run uses
First(st, run) == IF run.save /\ st.on /\ st.held[run.lam] # None THEN st.held[run.lam] ELSE run.a
Result(st, run) == [lam |-> run.lam, a |-> First(st, run), b |-> run.b]
\* a run in this process
Ran(st, run) == IF run.save /\ st.on THEN [st EXCEPT !.held[run.lam] = First(st, run), !.files = @ \cup {run.lam}] ELSE st
RECURSIVE RanAll(_, _, _)
RanAll(st, runs, i) == IF i > Len(runs) THEN st ELSE RanAll(Ran(st, runs[i]), runs, i+1)
\* runs side by side know what was saved before, and tell nobody what they save
Multi(st, runs) == [st EXCEPT !.files = @ \cup {runs[i].lam : i \in {j \in 1..Len(runs) : runs[j].save /\ st.on}}]
Step(st, op) == CASE op.op = "init"  -> [st EXCEPT !.on = TRUE]
                  [] op.op = "end"   -> Begin
                  [] op.op = "run"   -> Ran(st, op.runs[1])
                  [] op.op = "file"  -> RanAll(st, op.runs, 1)
                  [] op.op = "multi" -> Multi(st, op.runs)
=============================================================================
