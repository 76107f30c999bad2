----------------------------- MODULE ExamplesMC -----------------------------
(* Every text over a small alphabet: the languages of Examples agree with   *)
(* the parsing-expression reading of the grammars in the example programs    *)
(* (TOK_IN: these grammars as the library's specification has them).         *)
EXTENDS Examples, Json, IOUtils
T == INSTANCE Tok3n
Gs == TLCEval([i \in 1..Len(ndJsonDeserialize(IOEnv.TOK_IN)) |-> LET c == ndJsonDeserialize(IOEnv.TOK_IN)[i] IN
        [g |-> TLCEval(T!Grammar(T!Norm(c.main), [k \in 1..Len(c.rules) |-> [b |-> T!Norm(c.rules[k].e), rt |-> c.rules[k].rt]])), alpha |-> {c.alpha[k] : k \in 1..Len(c.alpha)}, n |-> c.n, what |-> c.what]])
VARIABLES which, w
Init == which \in 1..Len(Gs) /\ w = <<>>
Next == /\ Len(w) < Gs[which].n
        /\ \E x \in Gs[which].alpha : w' = Append(w, x)
        /\ UNCHANGED which
Spec == Init /\ [][Next]_<<which, w>>

What == Gs[which].what
PEG == T!Parse(Gs[which].g, w)
Prefix(S) == LET x == Longest(S) IN [ok |-> x.p # -1, p |-> IF x.p = -1 THEN 0 ELSE x.p]
Derived == CASE What = "value" -> Prefix(JVal(w, 0)) [] What = "object" -> Prefix(JObj(w, 0)) [] What = "array" -> Prefix(JArr(w, 0)) [] What = "number" -> Prefix(JNum(w, 0)) [] What = "string" -> Prefix(Str(w, 0))
             [] What = "calc" -> [ok |-> Calc(w).ok, p |-> Calc(w).p]
PegAgrees == LET a == PEG b == Derived IN a.ok = b.ok /\ a.p = b.p
OneReading == What = "value" => Unambiguous(JVal(w, 0))
CalcMember == What = "calc" => (Calc(w).ok <=> CMember(w))
\* a reading has a value whenever its subterms stay small, and no exponent means nothing to deviate in
NoExponentNoDeviation == What = "calc" => LET c == Calc(w) IN c.ok /\ (\A i \in 1..Len(w) : w[i] \notin {69, 101}) => c.v = c.d
=============================================================================
