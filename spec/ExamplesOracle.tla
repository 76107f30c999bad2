--------------------------- MODULE ExamplesOracle ---------------------------
(* What the examples must do with the texts in TOK_IN. *)
EXTENDS Examples, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TOK_IN)
Answer(w) == LET v == Longest(JVal(w, 0)) o == Longest(JObj(w, 0)) a == Longest(JArr(w, 0)) n == Longest(JNum(w, 0)) s == Longest(Str(w, 0)) c == Calc(w) IN
  [j |-> <<v, o, a, n, s>>, c |-> c]
ASSUME ndJsonSerialize(IOEnv.TOK_OUT, [i \in 1..Len(Lines) |-> [id |-> Lines[i].id, r |-> Answer(Lines[i].w)]])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
