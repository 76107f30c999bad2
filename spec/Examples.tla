------------------------------ MODULE Examples ------------------------------
(* What the two example programs are for: the documents of the JSON example, *)
(* as a context-free language with the content of each document, and the    *)
(* expressions of the calculator with their value.                           *)
(* Positions are 0-based; w[i + 1] is the element at position i.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

At(w, i, S) == i < Len(w) /\ w[i + 1] \in S
One(w, i, S) == IF At(w, i, S) THEN {i + 1} ELSE {}
RECURSIVE Many(_, _, _)            \* all ends of zero or more elements of S
Many(w, i, S) == {i} \cup (IF At(w, i, S) THEN Many(w, i + 1, S) ELSE {})
Some(w, i, S) == IF At(w, i, S) THEN Many(w, i + 1, S) ELSE {}
Space == {32, 10, 13, 9}
Digit == 48..57
Hex == Digit \cup 65..70 \cup 97..102
RECURSIVE Word(_, _, _)
Word(w, i, x) == IF x = <<>> THEN {i} ELSE IF At(w, i, {Head(x)}) THEN Word(w, i + 1, Tail(x)) ELSE {}
Nm(i, j) == ToString(i) \o "+" \o ToString(j - i)
RECURSIVE Codes(_, _, _)
Codes(w, i, j) == IF i = j THEN "" ELSE ToString(w[i + 1]) \o (IF i + 1 = j THEN "" ELSE ".") \o Codes(w, i + 1, j)

-----------------------------------------------------------------------------
(* JSON.  Every operator gives the set of all derivations from position i:   *)
(* [p |-> where it ends, v |-> content].  Nothing is ordered or greedy here.  *)
StrChar(w, i) == (IF i < Len(w) /\ w[i + 1] \notin {34, 92} THEN {i + 1} ELSE {})
                 \cup (IF At(w, i, {92}) THEN One(w, i + 1, {34, 92, 47, 98, 102, 110, 114, 116})
                                              \cup (IF At(w, i + 1, {117}) /\ At(w, i + 2, Hex) /\ At(w, i + 3, Hex) /\ At(w, i + 4, Hex) /\ At(w, i + 5, Hex) THEN {i + 6} ELSE {})
                       ELSE {})
RECURSIVE StrBody(_, _)
StrBody(w, i) == {i} \cup UNION {StrBody(w, k) : k \in StrChar(w, i)}
Str(w, i) == IF At(w, i, {34}) THEN {[p |-> k + 1, v |-> "S" \o Codes(w, i + 1, k) \o ";"] : k \in {q \in StrBody(w, i + 1) : At(w, q, {34})}} ELSE {}
Natural(w, i) == One(w, i, {48}) \cup (IF At(w, i, 49..57) THEN Many(w, i + 1, Digit) ELSE {})
JInt(w, i) == Natural(w, i) \cup UNION {Natural(w, k) : k \in One(w, i, {45})}
\* optional parts: <<start, end>> of what is kept, <<>> if missing
Frac(w, i) == {<<>>} \cup (IF At(w, i, {46}) THEN {<<i + 1, k>> : k \in Some(w, i + 1, Digit)} ELSE {})
Expo(w, i, signs) == {<<>>} \cup (IF At(w, i, {69, 101}) THEN {<<i + 1, k>> : k \in UNION {Some(w, q, Digit) : q \in {i + 1} \cup One(w, i + 1, signs)}} ELSE {})
Part(x) == IF x = <<>> THEN "-" ELSE Nm(x[1], x[2])
After(x, i) == IF x = <<>> THEN i ELSE x[2]
JNum(w, i) == UNION {UNION {{[p |-> After(e, After(f, k)), v |-> "N" \o Nm(i, k) \o "," \o Part(f) \o "," \o Part(e) \o ";"]
                             : e \in Expo(w, After(f, k), {43, 45})} : f \in Frac(w, k)} : k \in JInt(w, i)}
RECURSIVE JVal(_, _), JPairs(_, _), JVals(_, _)
JObj(w, i) == IF ~At(w, i, {123}) THEN {} ELSE
              {[p |-> x.p + 1, v |-> "O(" \o x.v \o ")"] : x \in {y \in JPairs(w, i + 1) \cup {[p |-> k, v |-> ""] : k \in Many(w, i + 1, Space)} : At(w, y.p, {125})}}
JArr(w, i) == IF ~At(w, i, {91}) THEN {} ELSE
              {[p |-> x.p + 1, v |-> "A(" \o x.v \o ")"] : x \in {y \in JVals(w, i + 1) \cup {[p |-> k, v |-> ""] : k \in Many(w, i + 1, Space)} : At(w, y.p, {93})}}
JCore(w, i) == Str(w, i) \cup JNum(w, i) \cup JObj(w, i) \cup JArr(w, i)
               \cup {[p |-> k, v |-> "T"] : k \in Word(w, i, <<116, 114, 117, 101>>)} \cup {[p |-> k, v |-> "F"] : k \in Word(w, i, <<102, 97, 108, 115, 101>>)}
               \cup {[p |-> k, v |-> "0"] : k \in Word(w, i, <<110, 117, 108, 108>>)}
JVal(w, i) == UNION {UNION {{[p |-> q, v |-> x.v] : q \in Many(w, x.p, Space)} : x \in JCore(w, j)} : j \in Many(w, i, Space)}
JPair(w, i) == UNION {UNION {UNION {{[p |-> x.p, v |-> s.v \o x.v] : x \in JVal(w, c + 1)} : c \in {q \in Many(w, s.p, Space) : At(w, q, {58})}}
                             : s \in Str(w, j)} : j \in Many(w, i, Space)}
JPairs(w, i) == UNION {{x} \cup (IF At(w, x.p, {44}) THEN {[p |-> y.p, v |-> x.v \o y.v] : y \in JPairs(w, x.p + 1)} ELSE {}) : x \in JPair(w, i)}
JVals(w, i) == UNION {{x} \cup (IF At(w, x.p, {44}) THEN {[p |-> y.p, v |-> x.v \o y.v] : y \in JVals(w, x.p + 1)} ELSE {}) : x \in JVal(w, i)}
\* A document begins the text: the longest one
Longest(S) == IF S = {} THEN [p |-> -1, v |-> ""] ELSE CHOOSE x \in S : \A y \in S : y.p <= x.p
Unambiguous(S) == \A x, y \in S : x.p = y.p => x = y

-----------------------------------------------------------------------------
(* The calculator: membership, as documented in parser.h (sets of ends).     *)
RECURSIVE CExpr(_, _), CTerm(_, _), CFactor(_, _), CTermRest(_, _), CFactorRest(_, _), CPowRest(_, _)
Then(S, F(_)) == UNION {F(k) : k \in S}
CNum(w, i) == UNION {UNION {{After(e, After(f, k)) : e \in Expo(w, After(f, k), {45})} : f \in Frac(w, k)} : k \in Some(w, i, Digit)}
CPow(w, i) == CNum(w, i)
              \cup Then(Then(One(w, i, {45}), LAMBDA k : Many(w, k, Space)), LAMBDA k : CExpr(w, k))
              \cup Then(Then(Then(Then(One(w, i, {40}), LAMBDA k : Many(w, k, Space)), LAMBDA k : CExpr(w, k)), LAMBDA k : Many(w, k, Space)), LAMBDA k : One(w, k, {41}))
CExpr(w, i) == Then(Then(Many(w, i, Space), LAMBDA k : CTerm(w, k)), LAMBDA k : CTermRest(w, k))
CTermRest(w, i) == {i} \cup Then(Then(Many(w, i, Space), LAMBDA k : One(w, k, {43, 45})), LAMBDA k : CExpr(w, k))
CTerm(w, i) == Then(Then(Many(w, i, Space), LAMBDA k : CFactor(w, k)), LAMBDA k : CFactorRest(w, k))
CFactorRest(w, i) == {i} \cup Then(Then(Many(w, i, Space), LAMBDA k : One(w, k, {42, 47})), LAMBDA k : CTerm(w, k))
CFactor(w, i) == Then(Then(Many(w, i, Space), LAMBDA k : CPow(w, k)), LAMBDA k : CPowRest(w, k))
CPowRest(w, i) == {i} \cup Then(Then(Many(w, i, Space), LAMBDA k : One(w, k, {94})), LAMBDA k : CFactor(w, k))
CMember(w) == Len(w) \in Then(CExpr(w, 0), LAMBDA k : Many(w, k, Space))

(* Its meaning: exact rationals, NONE where they get too big for TLC or are not defined.  *)
(* s: the reading with its grouping;  v: its value;  d: the value if m^e is taken for mEe. *)
Big == 20000
NONE == [n |-> 0, d |-> 0]
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Rat(n, d) == IF d = 0 THEN NONE ELSE LET g == GCD(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 IN
             IF Abs(n \div g) > Big \/ Abs(d) \div g > Big THEN NONE ELSE [n |-> s * ((IF n < 0 THEN -1 ELSE 1) * (Abs(n) \div g)), d |-> Abs(d) \div g]
Plus(x, y) == IF x = NONE \/ y = NONE THEN NONE ELSE Rat(x.n * y.d + y.n * x.d, x.d * y.d)
Neg(x) == [x EXCEPT !.n = -x.n]
Times(x, y) == IF x = NONE \/ y = NONE THEN NONE ELSE Rat(x.n * y.n, x.d * y.d)
Over(x, y) == IF x = NONE \/ y = NONE THEN NONE ELSE Rat(x.n * y.d, x.d * y.n)
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN [n |-> 1, d |-> 1] ELSE IF k < 0 THEN Over([n |-> 1, d |-> 1], Power(x, -k)) ELSE Times(x, Power(x, k - 1))
Raise(x, y) == IF x = NONE \/ y = NONE \/ y.d # 1 \/ Abs(y.n) > 40 THEN NONE ELSE Power(x, y.n)
RECURSIVE Dec(_, _, _, _)
Dec(w, i, j, acc) == IF i = j \/ acc = -1 THEN acc ELSE Dec(w, i + 1, j, IF acc > 2000 THEN -1 ELSE acc * 10 + (w[i + 1] - 48))
RatOf(w, i, j) == LET x == Dec(w, i, j, 0) IN IF x = -1 THEN NONE ELSE Rat(x, 1)
Ten(k) == Power([n |-> 10, d |-> 1], k)

Fail == [ok |-> FALSE, p |-> 0, s |-> "", v |-> NONE, d |-> NONE]
Got(p, s, v, d) == [ok |-> TRUE, p |-> p, s |-> s, v |-> v, d |-> d]
Last0(S) == CHOOSE x \in S : \A y \in S : y <= x
Skip(w, i) == Last0(Many(w, i, Space))
RNum(w, i) ==
  IF Some(w, i, Digit) = {} THEN Fail ELSE
  LET k == Last0(Some(w, i, Digit))
      F == Frac(w, k) \ {<<>>}
      f == IF F = {} THEN <<>> ELSE CHOOSE x \in F : \A y \in F : y[2] <= x[2]
      E == Expo(w, After(f, k), {45}) \ {<<>>}
      e == IF E = {} THEN <<>> ELSE CHOOSE x \in E : \A y \in E : y[2] <= x[2]
      m == IF f = <<>> THEN RatOf(w, i, k) ELSE IF f[2] - f[1] > 3 THEN NONE ELSE Plus(RatOf(w, i, k), Over(RatOf(w, f[1], f[2]), Ten(f[2] - f[1])))
      neg == e # <<>> /\ w[e[1] + 1] = 45
      x == IF e = <<>> THEN 0 ELSE Dec(w, IF neg THEN e[1] + 1 ELSE e[1], e[2], 0)
      ex == IF neg THEN -x ELSE x
  IN Got(After(e, After(f, k)), "N" \o Nm(i, k) \o "," \o Part(f) \o "," \o Part(e) \o ";",
         IF e = <<>> THEN m ELSE IF x = -1 \/ Abs(x) > 9 THEN NONE ELSE Times(m, Ten(ex)), IF e = <<>> THEN m ELSE IF x = -1 \/ Abs(x) > 40 THEN NONE ELSE IF m.n = 0 /\ ex < 0 THEN NONE ELSE Raise(m, [n |-> ex, d |-> 1]))
RECURSIVE RExpr(_, _), RTerm(_, _), RFactor(_, _), RExprOn(_, _), RTermOn(_, _)
RPow(w, i) ==
  IF At(w, i, {40}) THEN LET x == RExpr(w, Skip(w, i + 1)) q == Skip(w, x.p) IN
                         IF x.ok /\ At(w, q, {41}) THEN Got(q + 1, "B(" \o x.s \o ")", x.v, x.d) ELSE Fail
  ELSE IF At(w, i, {45}) THEN LET x == RExpr(w, Skip(w, i + 1)) IN IF x.ok THEN Got(x.p, "M(" \o x.s \o ")", IF x.v = NONE THEN NONE ELSE Neg(x.v), IF x.d = NONE THEN NONE ELSE Neg(x.d)) ELSE Fail
  ELSE RNum(w, i)
\* powers group to the right
RFactor(w, i) == LET x == RPow(w, Skip(w, i)) q == Skip(w, x.p) IN
                 IF ~x.ok \/ ~At(w, q, {94}) THEN x
                 ELSE LET y == RFactor(w, q + 1) IN IF y.ok THEN Got(y.p, x.s \o "^" \o y.s, IF x.v # NONE /\ x.v.n = 0 /\ y.v # NONE /\ y.v.n < 0 THEN NONE ELSE Raise(x.v, y.v), IF x.d # NONE /\ x.d.n = 0 /\ y.d # NONE /\ y.d.n < 0 THEN NONE ELSE Raise(x.d, y.d)) ELSE x
\* the rest to the left
RTermOn(w, x) == LET q == Skip(w, x.p) IN IF ~At(w, q, {42, 47}) THEN x
                 ELSE LET y == RFactor(w, q + 1) IN
                      IF ~y.ok THEN x ELSE RTermOn(w, IF w[q + 1] = 42 THEN Got(y.p, x.s \o "*" \o y.s, Times(x.v, y.v), Times(x.d, y.d)) ELSE Got(y.p, x.s \o "/" \o y.s, Over(x.v, y.v), Over(x.d, y.d)))
RTerm(w, i) == LET x == RFactor(w, i) IN IF x.ok THEN RTermOn(w, x) ELSE Fail
RExprOn(w, x) == LET q == Skip(w, x.p) IN IF ~At(w, q, {43, 45}) THEN x
                 ELSE LET y == RTerm(w, q + 1) IN
                      IF ~y.ok THEN x ELSE RExprOn(w, IF w[q + 1] = 43 THEN Got(y.p, x.s \o "+" \o y.s, Plus(x.v, y.v), Plus(x.d, y.d))
                                                      ELSE Got(y.p, x.s \o "-" \o y.s, Plus(x.v, IF y.v = NONE THEN NONE ELSE Neg(y.v)), Plus(x.d, IF y.d = NONE THEN NONE ELSE Neg(y.d))))
RExpr(w, i) == LET x == RTerm(w, i) IN IF x.ok THEN RExprOn(w, x) ELSE Fail
Calc(w) == LET x == RExpr(w, 0) IN IF x.ok /\ Skip(w, x.p) = Len(w) THEN [x EXCEPT !.p = Len(w)] ELSE Fail
=============================================================================
