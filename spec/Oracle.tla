------------------------------- MODULE Oracle -------------------------------
(* Evaluates the specification on generated grammars and inputs: the       *)
(* expected behaviours that are replayed into the real code.               *)
EXTENDS Tok3n, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TOK_IN)

GrammarOf(c) == Grammar(Norm(c.main), [i \in 1..Len(c.rules) |-> [b |-> Norm(c.rules[i].e), rt |-> c.rules[i].rt]])

RunIn(g, w) ==
  LET p == Parse(g, w)
      k == Look(g, w)
  IN <<p.ok, p.p, RenV(p.v), p.l, k.ok, k.p, k.l>>

Run(c) ==
  LET g == GrammarOf(c) IN
  IF ~Valid(g) THEN [id |-> c.id, valid |-> FALSE, ty |-> "", r |-> <<>>]
  ELSE [id |-> c.id, valid |-> TRUE, ty |-> RenT(g.main.ty), r |-> [i \in 1..Len(c.w) |-> RunIn(g, c.w[i])]]

Results == [i \in 1..Len(Cases) |-> Run(Cases[i])]
ASSUME ndJsonSerialize(IOEnv.TOK_OUT, Results)

VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
