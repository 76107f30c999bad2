------------------------------- MODULE Export -------------------------------
(* Enumerates a family, elaborates its grammars and writes the valid ones: *)
(* for the model checker (MC.tla) and for exhaustive replay into the code. *)
EXTENDS Families, Json, IOUtils
ScaleV == atoi(IOEnv.TOK_SCALE)
PropV == IOEnv.TOK_PROP
Line(p) == LET g == GrammarOfP(p) IN [main |-> p.main, rules |-> p.rules, g |-> g, ok |-> Valid(g)]
ASSUME LET ps == SetToSeq(FamilyOf(PropV))
           ls == TLCEval([i \in 1..Len(ps) |-> Line(ps[i])])
       IN ndJsonSerialize(IOEnv.TOK_OUT, SelectSeq(ls, LAMBDA l : l.ok))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
