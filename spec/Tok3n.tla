------------------------------- MODULE Tok3n -------------------------------
(***************************************************************************)
(* The meaning of tok3n parsers.                                           *)
(*                                                                         *)
(*   expressions  what a user writes: operators and modifiers    (Expr)    *)
(*   parsers      what those expressions denote                  (Ast)     *)
(*   types        the value type of a parser's result            (Type)    *)
(*   values       what a successful parse yields                 (Value)   *)
(*   Eval         the big-step meaning of parse and lookahead              *)
(*                                                                         *)
(* Positions are offsets (0..Len(input)); elements are integers.           *)
(* All records of one kind have the same fields, so that TLC can compare   *)
(* any two of them.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

RECURSIVE FlattenS(_)
FlattenS(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o FlattenS(Tail(ss))

Range0(s) == {s[i] : i \in 1..Len(s)}
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
MapS(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
AllS(s, Op(_)) == \A i \in 1..Len(s) : Op(s[i])

-----------------------------------------------------------------------------
(* Parsers.                                                                *)
(*   any none all (s = elements)  anything  eps                            *)
(*   cho seq (c = alternatives / parts)                                    *)
(*   may oom zom  exa (n = count)  del (c = <<item, separator>>)           *)
(*   ign com joi                                                           *)
(*   map fil (f, n = function)  nam (f = name)  cus (n = rule)             *)

N(t, s, n, f, c) == [t |-> t, s |-> s, n |-> n, f |-> f, c |-> c]
Leaf(t, s) == N(t, s, 0, "", <<>>)
EPS == Leaf("eps", <<>>)
Un(t, a) == N(t, <<>>, 0, "", <<a>>)
BAD == Leaf("ERR", <<>>)
BadIn(cs) == \E i \in 1..Len(cs) : cs[i].t = "ERR"

(* Operators, with the documented simplifications.                         *)
OrOp(a, b) ==
  CASE a.t = "ERR" \/ b.t = "ERR" -> BAD
    [] a.t = "any"  /\ b.t = "any"  -> Leaf("any",  SortedSeq(Range0(a.s) \cup Range0(b.s)))
    [] a.t = "none" /\ b.t = "none" -> Leaf("none", SortedSeq(Range0(a.s) \cap Range0(b.s)))
    [] a.t = "any"  /\ b.t = "none" -> Leaf("none", SortedSeq(Range0(b.s) \ Range0(a.s)))
    [] a.t = "none" /\ b.t = "any"  -> Leaf("none", SortedSeq(Range0(a.s) \ Range0(b.s)))
    [] a = b -> a
    [] a.t = "cho" /\ b.t = "cho" -> N("cho", <<>>, 0, "", a.c \o b.c)
    [] a.t = "cho" /\ b.t # "cho" -> N("cho", <<>>, 0, "", Append(a.c, b))
    [] a.t # "cho" /\ b.t = "cho" -> N("cho", <<>>, 0, "", <<a>> \o b.c)
    [] OTHER -> N("cho", <<>>, 0, "", <<a, b>>)

SeqOp(a, b) ==
  CASE a.t = "ERR" \/ b.t = "ERR" -> BAD
    [] a.t = "all" /\ b.t = "all" -> Leaf("all", a.s \o b.s)
    [] a.t = "seq" /\ b.t = "seq" -> N("seq", <<>>, 0, "", a.c \o b.c)
    [] a.t = "seq" /\ b.t # "seq" -> N("seq", <<>>, 0, "", Append(a.c, b))
    [] a.t # "seq" /\ b.t = "seq" -> N("seq", <<>>, 0, "", <<a>> \o b.c)
    [] OTHER -> N("seq", <<>>, 0, "", <<a, b>>)

NotOp(a) ==
  CASE a.t = "any"  -> Leaf("none", a.s)
    [] a.t = "none" -> Leaf("any", a.s)
    [] OTHER -> BAD

OptOp(a) ==   \* ~P
  CASE a.t = "ERR" -> BAD
    [] a.t \in {"may", "zom"} -> a
    [] a.t = "oom" -> Un("zom", a.c[1])
    [] OTHER -> Un("may", a)
PlusOp(a) ==  \* +P
  CASE a.t = "ERR" -> BAD
    [] a.t \in {"oom", "zom"} -> a
    [] a.t = "may" -> Un("zom", a.c[1])
    [] OTHER -> Un("oom", a)
StarOp(a) ==  \* *P
  CASE a.t = "ERR" -> BAD
    [] a.t = "zom" -> a
    [] a.t \in {"may", "oom"} -> Un("zom", a.c[1])
    [] OTHER -> Un("zom", a)
Idem(t, a) == IF a.t = "ERR" THEN BAD ELSE IF a.t = t THEN a ELSE Un(t, a)

-----------------------------------------------------------------------------
(* Expressions and modifiers:  [o, s, n, f, c, m]                          *)
RECURSIVE Norm(_), ApplyMod(_, _), ApplyMods(_, _), SubOne(_, _, _), SubAll(_, _)

Norm(e) ==
  CASE e.o \in {"any", "none"} -> Leaf(e.o, SortedSeq(Range0(e.s)))
    [] e.o = "all"  -> Leaf("all", e.s)
    [] e.o = "ignl" -> Un("ign", Leaf("all", e.s))        \* "..."_ign
    [] e.o = "anyv" -> Leaf("anything", <<>>)
    [] e.o = "eps"  -> EPS
    [] e.o = "or"   -> OrOp(Norm(e.c[1]), Norm(e.c[2]))
    [] e.o = "oreps" -> OrOp(Norm(e.c[1]), EPS)            \* p | eps
    [] e.o = "seq"  -> SeqOp(Norm(e.c[1]), Norm(e.c[2]))
    [] e.o = "not"  -> NotOp(Norm(e.c[1]))
    [] e.o = "opt"  -> OptOp(Norm(e.c[1]))
    [] e.o = "plus" -> PlusOp(Norm(e.c[1]))
    [] e.o = "star" -> StarOp(Norm(e.c[1]))
    [] e.o = "mod"  -> ApplyMod(Norm(e.c[1]), e.m[1])
    [] e.o = "rule" -> N("cus", <<>>, e.n, e.f, <<>>)
    [] OTHER -> BAD

ApplyMod(a, m) ==
  CASE a.t = "ERR" -> BAD
    [] m.o = "ign"  -> Idem("ign", a)
    [] m.o = "com"  -> Idem("com", a)
    [] m.o = "joi"  -> Idem("joi", a)
    [] m.o = "exa"  -> IF m.n >= 1 THEN N("exa", <<>>, m.n, "", <<a>>) ELSE BAD
    [] m.o = "map"  -> N("map", <<>>, m.n, m.f, <<a>>)
    [] m.o = "fil"  -> N("fil", <<>>, m.n, m.f, <<a>>)
    [] m.o = "del"  -> LET d == Norm(m.c[1]) IN
                       IF d.t = "ERR" THEN BAD ELSE N("del", <<>>, 0, "", <<a, Un("ign", d)>>)
    [] m.o = "delk" -> LET d == Norm(m.c[1]) IN
                       IF d.t = "ERR" THEN BAD ELSE N("del", <<>>, 0, "", <<a, d>>)
    [] m.o = "nam"  -> N("nam", <<>>, 0, m.f, <<a>>)
    [] m.o = "sub"  -> SubAll(a, m.m)
    [] m.o = "multi" -> ApplyMods(a, m.m)
    [] OTHER -> BAD

ApplyMods(a, ms) == IF ms = <<>> THEN a ELSE ApplyMods(ApplyMod(a, ms[1]), Tail(ms))

(* Substitution: every part named f becomes mod(part); it walks the parts  *)
(* that occur in the parser expression, not the inside of rules, and does  *)
(* not simplify again afterwards.                                          *)
SubOne(a, f, mod) ==
  CASE a.t = "nam" /\ a.f = f -> ApplyMod(SubOne(a.c[1], f, mod), mod)
    [] OTHER -> LET cs == TLCEval([i \in 1..Len(a.c) |-> SubOne(a.c[i], f, mod)]) IN
                IF BadIn(cs) THEN BAD ELSE [a EXCEPT !.c = cs]
SubAll(a, ss) == IF ss = <<>> \/ a.t = "ERR" THEN a
                 ELSE SubAll(SubOne(a, ss[1].f, ss[1].m[1]), Tail(ss))

(* The unsimplified reading of an expression: every operator application   *)
(* is its own node.  Used to state that simplification preserves meaning.  *)
RECURSIVE Naive(_)
Naive(e) ==
  CASE e.o = "or"   -> N("cho", <<>>, 0, "", <<Naive(e.c[1]), Naive(e.c[2])>>)
    [] e.o = "oreps" -> N("cho", <<>>, 0, "", <<Naive(e.c[1]), EPS>>)
    [] e.o = "seq"  -> N("seq", <<>>, 0, "", <<Naive(e.c[1]), Naive(e.c[2])>>)
    [] e.o = "opt"  -> Un("may", Naive(e.c[1]))
    [] e.o = "plus" -> Un("oom", Naive(e.c[1]))
    [] e.o = "star" -> Un("zom", Naive(e.c[1]))
    [] e.o = "mod" /\ e.m[1].o = "ign" -> Un("ign", Naive(e.c[1]))
    [] e.o = "mod" /\ e.m[1].o = "com" -> Un("com", Naive(e.c[1]))
    [] e.o = "mod" /\ e.m[1].o = "exa" -> N("exa", <<>>, e.m[1].n, "", <<Naive(e.c[1])>>)
    [] e.o = "mod" /\ e.m[1].o = "del" -> N("del", <<>>, 0, "", <<Naive(e.c[1]), Un("ign", Naive(e.m[1].c[1]))>>)
    [] OTHER -> Norm(e)

-----------------------------------------------------------------------------
(* Result types: [k, n, e].                                                *)
(*   S span   o optional   v vector   r array(n)   t tuple   x variant     *)
(*   p pair   i int   b bool   k box   u move-only box   I built from      *)
(*   arguments   R declared rule value   l long   w string view            *)
(*   V no value   ERR not a valid parser                                   *)
Ty(k, n, e) == [k |-> k, n |-> n, e |-> e]
TVoid == Ty("V", 0, <<>>)
TErr == Ty("ERR", 0, <<>>)
TSpan == Ty("S", 0, <<>>)
T0(k) == Ty(k, 0, <<>>)

RECURSIVE Joinable(_)
Joinable(ty) ==
  CASE ty.k = "S" -> TRUE
    [] ty.k \in {"o", "v", "r"} -> Joinable(ty.e[1])
    [] ty.k = "t" -> Len(ty.e) >= 1 /\ \A i \in 1..Len(ty.e) : Joinable(ty.e[i])
    [] OTHER -> FALSE

Unpackable(ty) == ty.k \in {"t", "p", "r"}
Parts(ty) == IF ty.k = "r" THEN [i \in 1..ty.n |-> ty.e[1]] ELSE ty.e

IsVoid(ty) == ty.k = "V"
NonVoid(tys) == SelectSeq(tys, LAMBDA x : x.k # "V")
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>>
               ELSE LET r == TLCEval(Distinct(SubSeq(s, 1, Len(s) - 1)))
                        x == s[Len(s)]
                    IN IF \E i \in 1..Len(r) : r[i] = x THEN r ELSE Append(r, x)

Pack(k, tys) == IF tys = <<>> THEN TVoid ELSE IF Len(tys) = 1 THEN tys[1] ELSE Ty(k, 0, tys)

(* The user functions of the function library (see harness/lib.h).         *)
(* f is the kind, an initial "a" means that it gets the parts of the value *)
(* as separate arguments.                                                  *)
ApplyFs == {"aI", "aU", "aR", "ainto", "aP", "aV", "aK", "pK"}
MapType(f, ty) ==
  IF f \in ApplyFs /\ ~Unpackable(ty) THEN TErr
  ELSE CASE f \in {"mI", "aI"} -> T0("i")
         [] f = "mB" -> T0("b")
         [] f \in {"mK", "aK"} -> T0("k")
         [] f \in {"mU", "aU"} -> T0("u")
         [] f \in {"mV", "aV"} -> TVoid
         [] f = "mM" -> IF IsVoid(ty) THEN TErr ELSE ty
         [] f = "mO" -> Ty("o", 0, <<T0("i")>>)     \* values that look like those of combinators
         [] f = "mT" -> Ty("t", 0, <<T0("i"), T0("k")>>)
         [] f = "mE" -> Ty("t", 0, <<>>)
         [] f = "mX" -> Ty("x", 0, <<T0("i"), T0("k")>>)
         [] f = "mL" -> Ty("v", 0, <<T0("i")>>)
         [] f = "mA" -> Ty("r", 2, <<T0("i")>>)
         [] f = "mP" -> Ty("p", 0, <<T0("b"), T0("i")>>)
         [] f = "aR" -> Ty("t", 0, Reverse(Parts(ty)))
         [] f \in {"into", "ainto"} -> T0("I")
         [] f = "cI" -> T0("i")     \* constant<int>
         [] f = "cB" -> T0("b")     \* constant<bool>
         [] f = "cK" -> T0("k")     \* constant<box>
         [] f = "dI" -> T0("i")     \* defaulted<int>
         [] f = "dK" -> T0("k")     \* defaulted<box>
         [] f = "dI2" -> T0("I")    \* defaulted<Into>
         [] f = "lI" -> T0("i")     \* a closure
         [] f = "kI" -> IF ty = T0("k") THEN T0("i") ELSE TErr    \* pointer to a member function of the box
         [] f = "uK" -> IF ty = T0("u") THEN T0("k") ELSE TErr    \* pointers to functions, taking what can only be moved,
         [] f = "iI" -> IF ty = T0("i") THEN T0("i") ELSE TErr    \* a number,
         [] f = "sI" -> IF ty = T0("S") THEN T0("i") ELSE TErr    \* text (a string_view),
         [] f = "pK" -> IF Parts(ty) = <<T0("u"), T0("i")>> THEN T0("k") ELSE TErr   \* two parts
         [] OTHER -> TErr
FilOK(f, ty) == f \in {"fP", "fT", "fF", "fI", "lP"} \/ (f = "kP" /\ ty = T0("k")) \/ (f \in {"gP", "gT", "gF"} /\ Unpackable(ty))

(* Declared value types of rules: which definition types convert to them.  *)
ConvOK(ty, rt) ==
  CASE rt = "rb" -> ~IsVoid(ty) /\ ty.k # "ERR"
    [] rt = "b"  -> ty.k \in {"b", "i"}
    [] rt = "l"  -> ty.k \in {"b", "i"}
    [] rt = "os" -> ty.k = "S" \/ ty = Ty("o", 0, <<TSpan>>)
    [] rt = "sv" -> ty.k = "S"
    [] rt = "void" -> IsVoid(ty)
    [] OTHER -> FALSE
RtType(rt) ==
  CASE rt = "rb" -> T0("R")
    [] rt = "b"  -> T0("b")
    [] rt = "l"  -> T0("l")
    [] rt = "os" -> Ty("o", 0, <<TSpan>>)
    [] rt = "sv" -> T0("w")
    [] rt = "void" -> TVoid
    [] OTHER -> TErr

(* Elaboration: attach to every node its type, and to a choice the table   *)
(* that maps its alternatives to variant members (-1: no value).           *)
(* rts[i] is the type of rule i.                                           *)
RECURSIVE Elab(_, _)
Elab(rts, a) ==
  LET cs == TLCEval([i \in 1..Len(a.c) |-> Elab(rts, a.c[i])])
      ts == TLCEval([i \in 1..Len(cs) |-> cs[i].ty])
      bad == a.t = "ERR" \/ \E i \in 1..Len(ts) : ts[i].k = "ERR"
      E(ty, ix) == [t |-> a.t, s |-> a.s, n |-> a.n, f |-> a.f, c |-> cs, ty |-> ty, ix |-> ix]
      Wrap(k, n) == IF IsVoid(ts[1]) THEN TVoid ELSE Ty(k, n, <<ts[1]>>)
      dist == TLCEval(Distinct(NonVoid(ts)))
  IN IF bad THEN E(TErr, <<>>)
     ELSE CASE a.t \in {"any", "none", "all", "anything"} -> E(TSpan, <<>>)
            [] a.t \in {"eps", "ign"} -> E(TVoid, <<>>)
            [] a.t = "cho" -> E(Pack("x", dist),
                                [i \in 1..Len(ts) |-> IF IsVoid(ts[i]) THEN -1 ELSE IndexIn(dist, ts[i]) - 1])
            [] a.t = "seq" -> E(Pack("t", NonVoid(ts)), <<>>)
            [] a.t = "may" -> E(Wrap("o", 0), <<>>)
            [] a.t \in {"oom", "zom"} -> E(Wrap("v", 0), <<>>)
            [] a.t = "exa" -> E(Wrap("r", a.n), <<>>)
            [] a.t = "del" -> E(IF IsVoid(ts[2]) THEN Wrap("v", 0)
                                ELSE IF IsVoid(ts[1]) THEN Ty("v", 0, <<ts[2]>>)
                                ELSE Ty("p", 0, <<Ty("v", 0, <<ts[1]>>), Ty("v", 0, <<ts[2]>>)>>), <<>>)
            [] a.t \in {"com", "nam"} -> E(ts[1], <<>>)
            [] a.t = "joi" -> E(IF Joinable(ts[1]) THEN TSpan ELSE TErr, <<>>)
            [] a.t = "map" -> E(MapType(a.f, ts[1]), <<>>)
            [] a.t = "fil" -> E(IF FilOK(a.f, ts[1]) THEN ts[1] ELSE TErr, <<>>)
            [] a.t = "cus" -> E(rts[a.n], <<>>)
            [] OTHER -> E(TErr, <<>>)

RECURSIVE CusRefs(_)
CusRefs(a) == IF a.t = "cus" THEN {a.n} ELSE UNION {CusRefs(a.c[i]) : i \in 1..Len(a.c)}

(* Types of rules: declared ones first; a rule without declaration has the *)
(* type of its definition and may refer only to declared or later rules.   *)
RECURSIVE RuleTypesFrom(_, _, _)
RuleTypesFrom(rules, i, rts) ==
  IF i = 0 THEN rts
  ELSE RuleTypesFrom(rules, i - 1,
         IF rules[i].rt # "-" THEN rts
         ELSE IF \E j \in CusRefs(rules[i].b) : rules[j].rt = "-" /\ j <= i THEN [rts EXCEPT ![i] = TErr]
         ELSE [rts EXCEPT ![i] = Elab(rts, rules[i].b).ty])
RuleTypes(rules) ==
  RuleTypesFrom(rules, Len(rules), TLCEval([i \in 1..Len(rules) |-> RtType(rules[i].rt)]))

(* A grammar: g.main elaborated, g.rules[i] = [b: elaborated, rt, ty].     *)
Grammar(main, rules) ==      \* main : Ast, rules : Seq([b : Ast, rt : STRING])
  LET rts == TLCEval(RuleTypes(rules)) IN
  [main |-> Elab(rts, main),
   rules |-> TLCEval([i \in 1..Len(rules) |-> [b |-> Elab(rts, rules[i].b), rt |-> rules[i].rt, ty |-> rts[i]]])]

(* Which grammars are meaningful: every node has a type, declared types    *)
(* are convertible, no repetition of something that may match without      *)
(* consuming, no left recursion.                                           *)
RECURSIVE Nullable(_, _)
Nullable(ns, a) ==
  CASE a.t \in {"any", "none", "anything"} -> FALSE
    [] a.t = "all" -> a.s = <<>>
    [] a.t \in {"eps", "may", "zom"} -> TRUE
    [] a.t = "cho" -> \E i \in 1..Len(a.c) : Nullable(ns, a.c[i])
    [] a.t = "seq" -> \A i \in 1..Len(a.c) : Nullable(ns, a.c[i])
    [] a.t = "cus" -> a.n \in ns
    [] a.t = "ERR" -> TRUE
    [] OTHER -> Nullable(ns, a.c[1])

RECURSIVE NullFix(_, _)
NullFix(g, ns) == LET ns2 == ns \cup {i \in 1..Len(g.rules) : Nullable(ns, g.rules[i].b)}
                  IN IF ns2 = ns THEN ns ELSE NullFix(g, ns2)
NullRules(g) == NullFix(g, {})

RECURSIVE LeftRefs(_, _), LeftSeq(_, _)
LeftSeq(ns, cs) == IF cs = <<>> THEN {}
                   ELSE LeftRefs(ns, cs[1]) \cup (IF Nullable(ns, cs[1]) THEN LeftSeq(ns, Tail(cs)) ELSE {})
LeftRefs(ns, a) ==
  CASE a.t = "cus" -> {a.n}
    [] a.t \in {"seq", "del"} -> LeftSeq(ns, a.c)
    [] OTHER -> UNION {LeftRefs(ns, a.c[i]) : i \in 1..Len(a.c)}
RECURSIVE LeftReach(_, _, _)
LeftReach(g, ns, S) == LET S2 == S \cup UNION {LeftRefs(ns, g.rules[i].b) : i \in S}
                       IN IF S2 = S THEN S ELSE LeftReach(g, ns, S2)

RECURSIVE RepOK(_, _)
RepOK(ns, a) ==
  /\ a.t \in {"zom", "oom"} => ~Nullable(ns, a.c[1])
  /\ a.t = "del" => ~(Nullable(ns, a.c[1]) /\ Nullable(ns, a.c[2]))
  /\ \A i \in 1..Len(a.c) : RepOK(ns, a.c[i])

RECURSIVE Typed(_)
Typed(a) == a.ty.k # "ERR" /\ \A i \in 1..Len(a.c) : Typed(a.c[i])

Valid(g) ==
  /\ Typed(g.main)
  /\ \A i \in 1..Len(g.rules) :
       /\ Typed(g.rules[i].b)
       /\ g.rules[i].rt # "-" => ConvOK(g.rules[i].b.ty, g.rules[i].rt)
  /\ LET ns == NullRules(g) IN
       /\ RepOK(ns, g.main)
       /\ \A i \in 1..Len(g.rules) :
            /\ RepOK(ns, g.rules[i].b)
            /\ i \notin LeftReach(g, ns, LeftRefs(ns, g.rules[i].b))

-----------------------------------------------------------------------------
(* Values: [k, n, m, e].                                                   *)
Val(k, n, m, e) == [k |-> k, n |-> n, m |-> m, e |-> e]
NIL == Val("nil", 0, 0, <<>>)
SpanV(i, len) == Val("s", i, len, <<>>)
NullSpan == Val("s", -1, 0, <<>>)          \* a default-constructed span

RECURSIVE Default(_)
Default(ty) ==
  CASE ty.k \in {"S", "w"} -> NullSpan
    [] ty.k = "o" -> Val("o", 0, 0, <<>>)
    [] ty.k = "v" -> Val("v", 0, 0, <<>>)
    [] ty.k = "r" -> Val("r", 0, 0, [i \in 1..ty.n |-> Default(ty.e[1])])
    [] ty.k = "t" -> Val("t", 0, 0, [i \in 1..Len(ty.e) |-> Default(ty.e[i])])
    [] ty.k = "p" -> Val("p", 0, 0, [i \in 1..Len(ty.e) |-> Default(ty.e[i])])
    [] ty.k = "x" -> Val("x", 0, 0, <<Default(ty.e[1])>>)
    [] OTHER -> Val(ty.k, 0, 0, <<>>)

(* A value conforms to a type.                                             *)
RECURSIVE HasType(_, _)
HasType(v, ty) ==
  CASE ty.k = "V" -> v = NIL
    [] ty.k \in {"S", "w"} -> v.k = "s"
    [] ty.k = "o" -> v.k = "o" /\ Len(v.e) <= 1 /\ \A i \in 1..Len(v.e) : HasType(v.e[i], ty.e[1])
    [] ty.k = "v" -> v.k = "v" /\ \A i \in 1..Len(v.e) : HasType(v.e[i], ty.e[1])
    [] ty.k = "r" -> v.k = "r" /\ Len(v.e) = ty.n /\ \A i \in 1..Len(v.e) : HasType(v.e[i], ty.e[1])
    [] ty.k \in {"t", "p"} -> v.k = ty.k /\ Len(v.e) = Len(ty.e) /\ \A i \in 1..Len(v.e) : HasType(v.e[i], ty.e[i])
    [] ty.k = "x" -> v.k = "x" /\ v.n \in 0..(Len(ty.e) - 1) /\ HasType(v.e[1], ty.e[v.n + 1])
    [] OTHER -> v.k = ty.k

(* Digests: how the user functions of the library look at a value.         *)
H(a, b) == (a * 31 + b + 7) % 9973
RECURSIVE DigSyms(_, _, _, _), Dig(_, _), DigL(_, _, _, _)
DigSyms(w, i, j, acc) == IF i > j THEN acc ELSE DigSyms(w, i + 1, j, H(acc, w[i] % 256))
DigL(w, vs, i, acc) == IF i > Len(vs) THEN acc ELSE DigL(w, vs, i + 1, H(acc, Dig(w, vs[i])))
DigList(w, vs) == DigL(w, vs, 1, 1)
Dig(w, v) ==
  CASE v.k = "s" -> DigSyms(w, v.n + 1, v.n + v.m, 3 + v.m)
    [] v.k = "o" -> H(5,  DigList(w, v.e))
    [] v.k = "v" -> H(7,  DigList(w, v.e))
    [] v.k = "r" -> H(11, DigList(w, v.e))
    [] v.k = "t" -> H(13, DigList(w, v.e))
    [] v.k = "x" -> H(17 + v.n, DigList(w, v.e))
    [] v.k = "p" -> H(19, DigList(w, v.e))
    [] v.k = "i" -> H(23, v.n)
    [] v.k = "l" -> H(25, v.n)
    [] v.k = "b" -> H(29, v.n)
    [] v.k = "k" -> H(37, v.n)
    [] v.k = "u" -> H(41, v.n)
    [] v.k = "I" -> H(H(43, v.n), v.m)
    [] v.k = "R" -> H(47, v.n)
    [] OTHER -> 0

Args(v) == IF v = NIL THEN <<>> ELSE <<v>>
FArgs(f, v) == IF f \in ApplyFs \/ f \in {"gP", "gT", "gF"} THEN v.e ELSE Args(v)

MapVal(w, f, n, v) ==
  LET as == FArgs(f, v)
      d == DigList(w, as)
  IN CASE f \in {"mI", "aI", "lI", "kI", "iI", "sI"} -> Val("i", (d + n) % 9973, 0, <<>>)
       [] f = "mB" -> Val("b", (d + n) % 2, 0, <<>>)
       [] f \in {"mK", "aK", "uK", "pK"} -> Val("k", (d + n) % 9973, 0, <<>>)
       [] f \in {"mU", "aU"} -> Val("u", (d + n) % 9973, 0, <<>>)
       [] f \in {"mV", "aV"} -> NIL
       [] f = "mM" -> v
       [] f = "mO" -> IF d % 2 = 0 THEN Val("o", 0, 0, <<Val("i", d, 0, <<>>)>>) ELSE Val("o", 0, 0, <<>>)
       [] f = "mT" -> Val("t", 0, 0, <<Val("i", (d + n) % 9973, 0, <<>>), Val("k", d, 0, <<>>)>>)
       [] f = "mE" -> Val("t", 0, 0, <<>>)
       [] f = "mX" -> Val("x", d % 2, 0, <<Val(IF d % 2 = 0 THEN "i" ELSE "k", (d + n) % 9973, 0, <<>>)>>)
       [] f = "mL" -> Val("v", 0, 0, [i \in 1..(d % 3) |-> Val("i", (d + i) % 9973, 0, <<>>)])
       [] f = "mA" -> Val("r", 0, 0, <<Val("i", (d + n) % 9973, 0, <<>>), Val("i", d, 0, <<>>)>>)
       [] f = "mP" -> Val("p", 0, 0, <<Val("b", d % 2, 0, <<>>), Val("i", (d + n) % 9973, 0, <<>>)>>)
       [] f = "aR" -> Val("t", 0, 0, Reverse(as))
       [] f \in {"into", "ainto"} -> IF as = <<>> THEN Val("I", 0, 0, <<>>)          \* default construction
                                       ELSE IF Len(as) = 1 /\ as[1].k = "I" THEN as[1]   \* copy, move
                                       ELSE Val("I", Len(as), d, <<>>)
       [] f = "cI" -> Val("i", n, 0, <<>>)
       [] f = "cB" -> Val("b", n % 2, 0, <<>>)
       [] f = "cK" -> Val("k", n, 0, <<>>)
       [] f = "dI" -> Val("i", 0, 0, <<>>)
       [] f = "dK" -> Val("k", 0, 0, <<>>)
       [] f = "dI2" -> Val("I", 0, 0, <<>>)

(* fP, gP: n = 100 * modulus + residue;  fI: an int-valued predicate       *)
FilVal(w, f, n, v) ==
  LET d == DigList(w, FArgs(f, v)) IN
  CASE f \in {"fT", "gT"} -> TRUE
    [] f \in {"fF", "gF"} -> FALSE
    [] f \in {"fP", "gP", "lP", "kP"} -> d % (n \div 100) = n % 100
    [] f = "fI" -> d % n # 0

(* Functions that the library itself supplies are not reported.            *)
Logged(f) == f \notin {"into", "ainto", "cI", "cB", "cK", "dI", "dK", "dI2"}

Convert(w, v, rt) ==
  CASE rt = "-" -> v
    [] rt = "rb" -> IF v.k = "R" THEN v ELSE Val("R", Dig(w, v), 0, <<>>)
    [] rt = "b"  -> Val("b", IF v.n # 0 THEN 1 ELSE 0, 0, <<>>)
    [] rt = "l"  -> Val("l", v.n, 0, <<>>)
    [] rt = "os" -> IF v.k = "o" THEN v ELSE Val("o", 0, 0, <<v>>)
    [] rt = "sv" -> v
    [] rt = "void" -> NIL

-----------------------------------------------------------------------------
(* Rendering, in the notation that the harness prints.                     *)
RECURSIVE RenV(_), RenL(_), RenT(_), RenTL(_)
RenL(vs) == IF vs = <<>> THEN "" ELSE IF Len(vs) = 1 THEN RenV(vs[1]) ELSE RenV(vs[1]) \o "," \o RenL(Tail(vs))
RenV(v) ==
  CASE v.k = "nil" -> "-"
    [] v.k = "s" -> IF v.n = -1 THEN "s(null)" ELSE "s(" \o ToString(v.n) \o "+" \o ToString(v.m) \o ")"
    [] v.k = "x" -> "x" \o ToString(v.n) \o "(" \o RenL(v.e) \o ")"
    [] v.k \in {"o", "v", "r", "t", "p"} -> v.k \o "(" \o RenL(v.e) \o ")"
    [] v.k = "I" -> "I(" \o ToString(v.n) \o "," \o ToString(v.m) \o ")"
    [] OTHER -> v.k \o ToString(v.n)
RenTL(ts) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN RenT(ts[1]) ELSE RenT(ts[1]) \o "," \o RenTL(Tail(ts))
RenT(ty) ==
  CASE ty.k = "r" -> "r" \o ToString(ty.n) \o "(" \o RenT(ty.e[1]) \o ")"
    [] ty.k \in {"o", "v", "t", "x", "p"} -> ty.k \o "(" \o RenTL(ty.e) \o ")"
    [] OTHER -> ty.k

CallEv(f, n, as) == f \o ToString(n) \o "(" \o RenL(as) \o ")"

-----------------------------------------------------------------------------
(* Joining: flatten a value into its spans, drop the empty ones, require   *)
(* adjacency.                                                              *)
RECURSIVE SpansOf(_)
SpansOf(v) == IF v.k = "s" THEN <<v>> ELSE FlattenS([i \in 1..Len(v.e) |-> SpansOf(v.e[i])])
NonEmptySpans(v) == SelectSeq(SpansOf(v), LAMBDA x : x.m > 0)
Adjacent(ss) == \A i \in 1..(Len(ss) - 1) : ss[i].n + ss[i].m = ss[i+1].n
JoinOK(v) == Adjacent(NonEmptySpans(v))
JoinV(v, endpos) ==
  LET ss == NonEmptySpans(v) IN
  IF ss = <<>> THEN SpanV(endpos, 0)
  ELSE SpanV(ss[1].n, ss[Len(ss)].n + ss[Len(ss)].m - ss[1].n)

(* Leaves: length of the match at offset i of w, or -1.                    *)
LeafLen(w, a, i) ==
  LET left == Len(w) - i IN
  CASE a.t = "anything" -> IF left >= 1 THEN 1 ELSE -1
    [] a.t = "any"  -> IF left >= 1 /\ \E k \in 1..Len(a.s) : a.s[k] = w[i + 1] THEN 1 ELSE -1
    [] a.t = "none" -> IF left >= 1 /\ \A k \in 1..Len(a.s) : a.s[k] # w[i + 1] THEN 1 ELSE -1
    [] a.t = "all"  -> IF left >= Len(a.s) /\ \A k \in 1..Len(a.s) : a.s[k] = w[i + k] THEN Len(a.s) ELSE -1

-----------------------------------------------------------------------------
(* Big-step meaning.  md: "P" parse, "L" lookahead.                        *)
(* Result [ok, p, v, l]: success, position after, value, events.           *)
Res(ok, p, v, l) == [ok |-> ok, p |-> p, v |-> v, l |-> l]
Fail(i, l) == Res(FALSE, i, NIL, l)
ItemV(md, a, r) == IF md = "L" \/ IsVoid(a.ty) THEN <<>> ELSE <<r.v>>

RECURSIVE Ev(_, _, _, _, _), EvCho(_, _, _, _, _, _, _), EvSeq(_, _, _, _, _, _, _, _, _),
          EvRep(_, _, _, _, _, _, _, _), EvDel(_, _, _, _, _, _, _, _)

Ev(g, w, a, i, md) ==
  CASE a.t \in {"any", "none", "all", "anything"} ->
         LET n == LeafLen(w, a, i) IN
         IF n < 0 THEN Fail(i, <<>>)
         ELSE Res(TRUE, i + n, IF md = "P" THEN SpanV(i, n) ELSE NIL, <<>>)
    [] a.t = "eps" -> Res(TRUE, i, NIL, <<>>)
    [] a.t = "cho" -> EvCho(g, w, a, i, md, 1, <<>>)
    [] a.t = "seq" -> EvSeq(g, w, a, i, md, 1, i, <<>>, <<>>)
    [] a.t = "may" ->
         LET r == Ev(g, w, a.c[1], i, md) IN
         IF md = "L" \/ IsVoid(a.ty) THEN Res(TRUE, r.p, NIL, r.l)
         ELSE Res(TRUE, r.p, Val("o", 0, 0, IF r.ok THEN <<r.v>> ELSE <<>>), r.l)
    [] a.t \in {"zom", "oom", "exa"} -> EvRep(g, w, a, i, md, i, <<>>, <<0, <<>>>>)
    [] a.t = "del" ->
         LET r == Ev(g, w, a.c[1], i, md) IN
         IF ~r.ok THEN Fail(i, r.l)
         ELSE EvDel(g, w, a, md, r.p, ItemV(md, a.c[1], r), <<>>, r.l)
    [] a.t = "ign" -> LET r == Ev(g, w, a.c[1], i, "L") IN Res(r.ok, r.p, NIL, r.l)
    [] a.t = "com" ->
         LET r == Ev(g, w, a.c[1], i, md) IN
         IF r.ok /\ r.p = Len(w) THEN r ELSE Fail(i, r.l)
    [] a.t = "joi" ->
         LET r == Ev(g, w, a.c[1], i, md) IN
         IF md = "L" THEN Res(r.ok, r.p, NIL, r.l)
         ELSE IF r.ok /\ JoinOK(r.v) THEN Res(TRUE, r.p, JoinV(r.v, r.p), r.l) ELSE Fail(i, r.l)
    [] a.t = "map" ->
         LET r == Ev(g, w, a.c[1], i, md) IN
         IF md = "L" THEN Res(r.ok, r.p, NIL, r.l)
         ELSE IF ~r.ok THEN Fail(i, r.l)
         ELSE Res(TRUE, r.p, MapVal(w, a.f, a.n, r.v),
                  IF Logged(a.f) THEN Append(r.l, CallEv(a.f, a.n, FArgs(a.f, r.v))) ELSE r.l)
    [] a.t = "fil" ->
         LET r == Ev(g, w, a.c[1], i, md) IN
         IF md = "L" THEN Res(r.ok, r.p, NIL, r.l)
         ELSE IF ~r.ok THEN Fail(i, r.l)
         ELSE LET l2 == Append(r.l, CallEv(a.f, a.n, FArgs(a.f, r.v)))
              IN IF FilVal(w, a.f, a.n, r.v) THEN Res(TRUE, r.p, r.v, l2) ELSE Fail(i, l2)
    [] a.t = "nam" -> Ev(g, w, a.c[1], i, md)
    [] a.t = "cus" ->
         LET r == Ev(g, w, g.rules[a.n].b, i, md) IN
         IF md = "L" \/ ~r.ok THEN r ELSE [r EXCEPT !.v = Convert(w, r.v, g.rules[a.n].rt)]

EvCho(g, w, a, i, md, k, l) ==
  IF k > Len(a.c) THEN Fail(i, l)
  ELSE LET r == Ev(g, w, a.c[k], i, md)
           l2 == l \o r.l
       IN IF ~r.ok THEN EvCho(g, w, a, i, md, k + 1, l2)
          ELSE Res(TRUE, r.p,
                   IF md = "L" \/ IsVoid(a.ty) THEN NIL
                   ELSE IF IsVoid(a.c[k].ty) THEN Default(a.ty)
                   ELSE IF a.ty.k = "x" /\ Cardinality(Range0(a.ix) \ {-1}) > 1 THEN Val("x", a.ix[k], 0, <<r.v>>)
                   ELSE r.v, l2)

EvSeq(g, w, a, i, md, k, p, vs, l) ==
  IF k > Len(a.c)
  THEN Res(TRUE, p,
           IF md = "L" \/ IsVoid(a.ty) THEN NIL
           ELSE IF Len(vs) = 1 THEN vs[1] ELSE Val("t", 0, 0, vs), l)
  ELSE LET r == Ev(g, w, a.c[k], p, md)
           l2 == l \o r.l
       IN IF ~r.ok THEN Fail(i, l2)
          ELSE EvSeq(g, w, a, i, md, k + 1, r.p,
                     IF md = "L" \/ IsVoid(a.c[k].ty) THEN vs ELSE Append(vs, r.v), l2)

(* zom, oom, exa;  st = <<matches so far, values>>                         *)
EvRep(g, w, a, i, md, p, l, st) ==
  LET done == Res(TRUE, p,
                  IF md = "L" \/ IsVoid(a.ty) THEN NIL
                  ELSE Val(IF a.t = "exa" THEN "r" ELSE "v", 0, 0, st[2]), l)
  IN IF a.t = "exa" /\ st[1] = a.n THEN done
     ELSE LET r == Ev(g, w, a.c[1], p, md)
              l2 == l \o r.l
          IN IF r.ok
             THEN EvRep(g, w, a, i, md, r.p, l2,
                        <<st[1] + 1, IF md = "L" \/ IsVoid(a.ty) THEN <<>> ELSE Append(st[2], r.v)>>)
             ELSE IF a.t = "zom" \/ (a.t = "oom" /\ st[1] > 0) THEN [done EXCEPT !.l = l2]
             ELSE Fail(i, l2)

(* (separator item)* after the first item                                  *)
EvDel(g, w, a, md, p, vs, ds, l) ==
  LET d == Ev(g, w, a.c[2], p, md)
      done(lg) ==
        Res(TRUE, p,
            IF md = "L" \/ IsVoid(a.ty) THEN NIL
            ELSE IF a.ty.k = "p" THEN Val("p", 0, 0, <<Val("v", 0, 0, vs), Val("v", 0, 0, ds)>>)
            ELSE IF IsVoid(a.c[1].ty) THEN Val("v", 0, 0, ds) ELSE Val("v", 0, 0, vs), lg)
  IN IF ~d.ok THEN done(l \o d.l)
     ELSE LET r == Ev(g, w, a.c[1], d.p, md) IN
          IF ~r.ok THEN done(l \o d.l \o r.l)
          ELSE EvDel(g, w, a, md, r.p, vs \o ItemV(md, a.c[1], r), ds \o ItemV(md, a.c[2], d), l \o d.l \o r.l)

Parse(g, w) == Ev(g, w, g.main, 0, "P")
Look(g, w)  == Ev(g, w, g.main, 0, "L")
=============================================================================
