-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks executions recorded from the real code against the machine:      *)
(* the recorded calls of user functions (probes among them, which show     *)
(* where every part of the grammar is attempted) and the final result must *)
(* be those of a behaviour of the machine, step by step.                   *)
(* Prints ACCEPT / REJECT for every recorded execution.                    *)
(***************************************************************************)
EXTENDS MC

TInit == \E t \in Range0(ndJsonDeserialize(IOEnv.TOK_IN)) :
           \E gr \in {GrammarOfP(t)} :
           /\ prog = [main |-> t.main, rules |-> t.rules, id |-> t.id, g |-> gr, calls |-> t.calls, ok |-> t.ok, p |-> t.p, v |-> t.v]
           /\ w = t.w
           /\ md = "P"
           /\ m = Start(gr, "P")

Follows == IsPrefix(m.log, prog.calls)
\* a step of the machine, explained by the next recorded call if it makes one
TNext == Follows /\ ~Finished(m) /\ Next
Accepts == m.log = prog.calls /\ m.ret.ok = prog.ok /\ ToString(m.ret.p) = prog.p /\ RenV(m.ret.v) = prog.v
Report == IF Finished(m) THEN PrintT(IF Accepts THEN <<"ACCEPT", prog.id>> ELSE <<"REJECT", prog.id, Len(m.log)>>)
          ELSE Follows \/ PrintT(<<"REJECT", prog.id, Len(m.log)>>)
==============================================================================
