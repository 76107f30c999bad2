------------------------------ MODULE AcceptMC ------------------------------
(* Expressions are built step by step from the operands; every one that is  *)
(* accepted is over one element type, whatever was tried on the way.        *)
EXTENDS Accept, Json, IOUtils

LF(o, s, t) == EX(o, s, 0, t, <<>>, <<>>)
A_(t) == LF("any", <<97, 98>>, t)   N_(t) == LF("none", <<97>>, t)   L_(t) == LF("all", <<98>>, t)
Small(t) == {A_(t), N_(t), L_(t), XOpt(A_(t)), XSeq(A_(t), N_(t)), XOr(L_(t), N_(t)), XOr(A_(t), N_(t))}
Large(t) == Small(t) \cup {LF("anyv", <<>>, t), LF("eps", <<>>, t), LF("ignl", <<98>>, t), EX("rule", <<>>, 1, t, <<>>, <<>>),
            LF("any", <<>>, t), LF("all", <<97, 98>>, t), XPlus(A_(t)), XStar(L_(t)), XNot(A_(t)), XOrEps(A_(t)), XOr(A_(t), L_(t)),
            XSeq(XOpt(A_(t)), L_(t)), XMod(A_(t), MIgn), XMod(XStar(A_(t)), MJoi), XMod(L_(t), MCom), XMod(A_(t), MExa(2)), XMod(A_(t), MNam("x")),
            XMod(A_(t), MDel(L_(t))), XMod(A_(t), MDelk(L_(t))), XMod(A_(t), MMap("cI", 5)), XMod(A_(t), MFil("fT", 1))}
Types == {"char", "wchar_t", "int"}
Base == {PAR("char", e) : e \in Large("char")} \cup {PAR("wchar_t", e) : e \in Small("wchar_t") \cup {XMod(A_("wchar_t"), MJoi), XMod(A_("wchar_t"), MNam("x")), XMod(A_("wchar_t"), MDel(L_("wchar_t"))), EX("rule", <<>>, 1, "wchar_t", <<>>, <<>>)}}
        \cup {PAR("int", e) : e \in Small("int")}
        \cup {MOD({}, md) : md \in {MIgn, MCom, MJoi, MExa(2), MNam("x"), MNam("y"), MMap("cI", 5), MFil("fT", 1), MMulti(<<MIgn, MExa(2)>>), MSub(<<SubEq("x", MIgn)>>)}}
        \cup {MOD({t}, MDel(L_(t))) : t \in {"char", "wchar_t"}} \cup {MOD({"char"}, MDelk(A_("char")))}
        \cup {SUBST({}, SubEq("x", MIgn)), SUBST({}, SubEq("y", MExa(2)))}
        \cup {Sym(k) : k \in {"eps", "num", "delimit", "delimit_keep", "sub"}}

VARIABLES x, d
vars == <<x, d>>
MaxD == atoi(IOEnv.TOK_DEPTH)
Emitting == IOEnv.TOK_EMIT = "1"
Init == x \in Base /\ d = 0
Step(r) == r.k # "no" /\ x' = r /\ d' = d + 1
Next == /\ d < MaxD
        /\ \/ \E op \in BinOps, y \in Base : Asked(op, x, y) /\ Step(Bin(op, x, y))
           \/ \E op \in BinOps, y \in Base : Asked(op, y, x) /\ Step(Bin(op, y, x))
           \/ \E op \in UnOps : Asked(op, x, x) /\ Step(Un1(op, x))
Spec == Init /\ [][Next]_vars

OneType == /\ x.k = "parser" => LeafTypes(x.e[1]) = {x.t} /\ Norm(x.e[1]).t # "ERR"
           /\ x.k = "mod" => ModTypes(x.m[1]) = x.ts
(* the notations agree about what they accept, and grouping does not matter *)
Acc(r) == r.k # "no"
Agree == \A y \in Base :
  /\ y.k = "parser" /\ x.k = "parser" => /\ Acc(Bin("or", x, y)) = Acc(Bin("or", y, x))
                                          /\ Acc(Bin("seq", x, y)) = (x.t = y.t)
                                          /\ Acc(Bin("delimit", x, y)) = Acc(Apply(x, Bin("call", Sym("delimit"), y)))
                                          /\ Acc(Bin("delimit_keep", x, y)) = Acc(Bin("mod", x, Bin("call", Sym("delimit_keep"), y)))
  /\ y.k = "mod" /\ x.k = "parser" => /\ Acc(Bin("mod", x, y)) = Acc(Bin("call", y, x))
                                       /\ \A z \in Base : z.k = "mod" => (Acc(Bin("mod", x, y)) /\ Acc(Bin("mod", Bin("mod", x, y), z))) = Acc(Bin("mod", x, Bin("mod", y, z)))
  /\ y.k = "subst" /\ x.k = "parser" => Acc(Bin("sub", x, y)) /\ Acc(Bin("mod", x, Bin("call", Sym("sub"), y)))
  /\ x.k = "parser" /\ IsClass(x.e[1]) => Acc(Un1("not", x)) /\ IsClass(Un1("not", x).e[1])
Say == Emitting => PrintT("A:" \o ToJson(x))
=============================================================================
