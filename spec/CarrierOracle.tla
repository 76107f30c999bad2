---------------------------- MODULE CarrierOracle ----------------------------
(* Expected outcomes for every carrier of the given raw elements, and for a  *)
(* second parse that continues with the remainder of the first.              *)
EXTENDS Carrier, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TOK_IN)
GrammarOf(c) == Grammar(Norm(c.main), [i \in 1..Len(c.rules) |-> [b |-> Norm(c.rules[i].e), rt |-> c.rules[i].rt]])
One(g, w) == LET p == Parse(g, w)
                 k == Look(g, w)
             IN <<Len(w), p.ok, p.p, RenV(p.v), k.ok, k.p>>
RunIn(g, s) == LET p == Parse(g, s) IN
               [all |-> One(g, Denote("all", s)), array |-> One(g, Denote("array", s)), pointer |-> One(g, Denote("pointer", s)),
                rest |-> One(g, SubSeq(s, p.p + 1, Len(s)))]
Run(c) ==
  LET g == GrammarOf(c) IN
  IF ~Valid(g) THEN [id |-> c.id, valid |-> FALSE, ty |-> "", r |-> <<>>]
  ELSE [id |-> c.id, valid |-> TRUE, ty |-> RenT(g.main.ty), r |-> [i \in 1..Len(c.w) |-> RunIn(g, c.w[i])]]
ASSUME ndJsonSerialize(IOEnv.TOK_OUT, [i \in 1..Len(Cases) |-> Run(Cases[i])])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
