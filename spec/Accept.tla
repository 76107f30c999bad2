------------------------------- MODULE Accept -------------------------------
(* What may be combined with what, and what a combination is: operands are  *)
(* parsers over an element type, modifiers, substitutions, eps and others.  *)
(* An expression that is not accepted must be refused by the compiler, in a *)
(* way that a requires-expression can ask about; it has the kind "no".      *)
EXTENDS Families

(* k: parser, mod, subst, eps, delimit, delimit_keep, sub (these without    *)
(* operands), num; t: element type of a parser; ts: element types that a    *)
(* modifier demands; e: expression, m: modifier record (as sequences of at  *)
(* most one). Every leaf of an expression says its element type in f.       *)
Opd(k, t, ts, e, m) == [k |-> k, t |-> t, ts |-> ts, e |-> e, m |-> m]
PAR(t, e) == Opd("parser", t, {}, <<e>>, <<>>)
MOD(ts, md) == Opd("mod", "", ts, <<>>, <<md>>)
SUBST(ts, s) == Opd("subst", "", ts, <<>>, <<s>>)
Sym(k) == Opd(k, "", {}, <<>>, <<>>)
NO == Sym("no")

LeafOps == {"any", "none", "all", "ignl", "anyv", "eps", "rule"}
RECURSIVE LeafTypes(_), ModTypes(_)
LeafTypes(e) == IF e.o \in LeafOps THEN {e.f}
                ELSE UNION {LeafTypes(e.c[i]) : i \in 1..Len(e.c)} \cup UNION {ModTypes(e.m[i]) : i \in 1..Len(e.m)}
ModTypes(md) == UNION {LeafTypes(md.c[i]) : i \in 1..Len(md.c)} \cup UNION {ModTypes(md.m[i]) : i \in 1..Len(md.m)}

IsClass(e) == Norm(e).t \in {"any", "none"}

(* a parser together with a modifier *)
Apply(p, md) == IF md.ts \subseteq {p.t} THEN PAR(p.t, XMod(p.e[1], md.m[1])) ELSE NO
Parts_(md) == IF md.o = "multi" THEN md.m ELSE <<md>>

Bin(op, x, y) ==
  CASE op = "or"  -> IF x.k = "parser" /\ y.k = "parser" /\ x.t = y.t THEN PAR(x.t, XOr(x.e[1], y.e[1]))
                     ELSE IF x.k = "parser" /\ y.k = "eps" THEN PAR(x.t, XOrEps(x.e[1])) ELSE NO
    [] op = "seq" -> IF x.k = "parser" /\ y.k = "parser" /\ x.t = y.t THEN PAR(x.t, XSeq(x.e[1], y.e[1])) ELSE NO
    [] op = "mod" -> IF x.k = "parser" /\ y.k = "mod" THEN Apply(x, y)
                     ELSE IF x.k = "mod" /\ y.k = "mod" THEN MOD(x.ts \cup y.ts, MMulti(Parts_(x.m[1]) \o Parts_(y.m[1]))) ELSE NO
    [] op = "call" -> CASE x.k = "mod" /\ y.k = "parser" -> Apply(y, x)
                        [] x.k \in {"delimit", "delimit_keep"} /\ y.k = "parser" -> MOD({y.t}, IF x.k = "delimit" THEN MDel(y.e[1]) ELSE MDelk(y.e[1]))
                        [] x.k = "sub" /\ y.k = "subst" -> MOD({}, MSub(<<y.m[1]>>))
                        [] OTHER -> NO
    [] op \in {"delimit", "delimit_keep"} -> IF x.k = "parser" /\ y.k = "parser" /\ x.t = y.t
                        THEN PAR(x.t, XMod(x.e[1], IF op = "delimit" THEN MDel(y.e[1]) ELSE MDelk(y.e[1]))) ELSE NO
    [] op = "sub" -> CASE x.k = "parser" /\ y.k = "subst" -> PAR(x.t, XMod(x.e[1], MSub(<<y.m[1]>>)))
                       [] x.k = "subst" /\ y.k = "subst" -> MOD({}, MSub(<<x.m[1], y.m[1]>>))
                       [] OTHER -> NO
Un1(op, x) ==
  CASE op \in {"opt", "plus", "star"} /\ x.k = "parser" -> PAR(x.t, EX(op, <<>>, 0, "", <<x.e[1]>>, <<>>))
    [] op = "not" /\ x.k = "parser" -> IF IsClass(x.e[1]) THEN PAR(x.t, XNot(x.e[1])) ELSE NO
    [] op = "name" /\ x.k = "mod" -> SUBST(x.ts, SubEq("x", x.m[1]))
    [] OTHER -> NO
BinOps == {"or", "seq", "mod", "call", "delimit", "delimit_keep", "sub"}
UnOps == {"opt", "plus", "star", "not", "name"}
Res1(op, x, y) == IF op \in BinOps THEN Bin(op, x, y) ELSE Un1(op, x)

(* not asked: what the language itself or nobody defines.                   *)
(*  - operators of two things none of which belongs to the library;         *)
(*  - p % delimit and the like, without the separator;                      *)
(*  - substitutions that demand an element type; name = delimit.                          *)
Bare == {"delimit", "delimit_keep", "sub"}
Asked(op, x, y) ==
  /\ op \in BinOps => /\ ~(x.k = "num" /\ y.k \in {"num"} \cup Bare) /\ ~(y.k = "num" /\ x.k \in Bare)
                      /\ op = "mod" => y.k \notin Bare /\ x.k \notin Bare
                      /\ op = "call" => ~(x.k = "mod" /\ y.k = "mod")
  /\ op \in UnOps => x.k \notin {"num"} \cup Bare
  /\ x.k = "subst" => x.ts = {}
  /\ op \in BinOps /\ y.k = "subst" => y.ts = {}

(* the value of a result as the compiler can tell it *)
Probe == {"char", "wchar_t", "int"}
Code(r) == [k |-> r.k, t |-> IF r.k = "parser" THEN {r.t} ELSE IF r.k = "mod" THEN {t \in Probe : r.ts \subseteq {t}} ELSE {}]

-----------------------------------------------------------------------------
(* Inputs: which carriers of which element type a parser accepts.           *)
Arith == {"char", "wchar_t", "char8_t", "char16_t", "char32_t", "schar", "uchar", "short", "int", "uint", "long", "double"}
CharT == {"char", "wchar_t", "char8_t", "char16_t", "char32_t", "schar", "uchar"}
Comparable(t, v) == \/ t \in Arith /\ v \in Arith
                    \/ t = v
                    \/ {t, v} = {"struct", "other"}
                    \/ "other" \in {t, v} /\ ({t, v} \ {"other"}) \subseteq Arith
Contiguous == {"vector", "array", "carray", "cspan", "mspan", "string", "view", "litarray"}
OnlyChars == {"string", "view", "litarray"}
InputOK(t, kind, v) == Comparable(t, v) /\ (kind \in Contiguous \/ (kind = "pointer" /\ v \in CharT))
Kinds == Contiguous \cup {"pointer", "list", "deque", "set", "element", "nothing"}
Exists(kind, v) == /\ (kind \in OnlyChars => v \in {"char", "wchar_t", "char8_t", "char16_t", "char32_t"})
                   /\ (kind = "set" => v \in Arith)

-----------------------------------------------------------------------------
(* Functions: a map or filter accepts the parsers whose value it can take;  *)
(* what a filter's function answers must be a truth value.                  *)
Takes(f, ty) == CASE f.takes = "all" -> ty # "V" [] f.takes = "none" -> ty = "V" [] OTHER -> f.takes = ty
FunOK(how, f, ty) == Takes(f, ty) /\ (how = "filter" => f.gives \in {"bool", "int"})
After(how, f, ty) == IF how = "filter" THEN ty ELSE IF f.gives = "void" THEN "V" ELSE IF f.gives \in {"int", "bool"} THEN "I" ELSE f.gives   \* a truth value is also a number
=============================================================================
