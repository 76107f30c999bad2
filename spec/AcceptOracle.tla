---------------------------- MODULE AcceptOracle ----------------------------
(* What the specification says about asked combinations, inputs, functions. *)
EXTENDS Accept, Json, IOUtils, SequencesExt
Raw == ndJsonDeserialize(IOEnv.TOK_IN)
Ops == TLCEval([i \in 1..Len(Raw) |-> [Raw[i] EXCEPT !.ts = ToSet(Raw[i].ts)]])
RECURSIVE TyAt(_, _)
TyAt(q, j) == IF j = 1 THEN q.ty ELSE After(q.fs[j - 1].how, q.fs[j - 1].f, TyAt(q, j - 1))
Asks == ndJsonDeserialize(IOEnv.TOK_ASK)
Ans(q) == CASE q.q = "op" -> IF Asked(q.op, Ops[q.x], Ops[q.y]) THEN LET c == Code(Res1(q.op, Ops[q.x], Ops[q.y])) IN [k |-> c.k, t |-> SetToSeq(c.t)] ELSE [k |-> "skip", t |-> <<>>]
            [] q.q = "in" -> [k |-> IF ~Exists(q.kind, q.v) THEN "skip" ELSE IF InputOK(q.t, q.kind, q.v) THEN "yes" ELSE "no", t |-> <<>>]
            [] q.q = "fn" -> [k |-> IF (\E j \in 1..Len(q.fs) : ~FunOK(q.fs[j].how, q.fs[j].f, TyAt(q, j))) THEN "no" ELSE "yes", t |-> <<>>]
ASSUME ndJsonSerialize(IOEnv.TOK_OUT, [i \in 1..Len(Asks) |-> Ans(Asks[i])])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
