------------------------------- MODULE SpanEq -------------------------------
(* When a span equals another range: the elements that the other range       *)
(* denotes are pairwise equal to the span's and equally many.                *)
EXTENDS Carrier, Json, IOUtils, SequencesExt
MaxLen == IF IOEnv.TOK_SCALE = "0" THEN 3 ELSE 4
Elems == {0, 97, -1}
Words == UNION {[1..k -> Elems] : k \in 0..MaxLen}
RangeKinds == {"span", "vector", "stdarray", "stdspan", "array", "marray"}
CharKinds == RangeKinds \cup {"string", "view", "pointer", "mpointer", "literal"}
\* marray: a mutable array of characters is a buffer holding a text that ends with its first terminator
EqKind(kind, chars) ==
  CASE kind \in {"pointer", "mpointer"} -> "pointer"
    [] kind = "marray" /\ chars -> "pointer"
    [] kind = "array" /\ chars -> "array"
    [] OTHER -> "all"
Equal(s, kind, chars, t) == s = Denote(EqKind(kind, chars), t)
Rows == {[s |-> s, t |-> t, c |-> [k \in CharKinds |-> Equal(s, k, TRUE, t)], r |-> [k \in RangeKinds |-> Equal(s, k, FALSE, t)]] : s \in Words, t \in Words}

\* laws: equality of spans is an equivalence; the kinds agree on what has no terminator inside
Laws == \A s \in Words, t \in Words :
          /\ Equal(s, "span", TRUE, t) = Equal(t, "span", TRUE, s)
          /\ Equal(s, "span", TRUE, s)
          /\ Equal(s, "span", TRUE, t) = (Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i])
          /\ (\A i \in 1..Len(t) : t[i] # 0) => \A k \in CharKinds : Equal(s, k, TRUE, t) = Equal(s, "span", TRUE, t)
          /\ Equal(s, "array", TRUE, Literal(t)) = Equal(s, "view", TRUE, t)
ASSUME Laws
ASSUME ndJsonSerialize(IOEnv.TOK_OUT, SetToSeq(Rows))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
