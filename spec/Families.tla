----------------------------- MODULE Families -----------------------------
(***************************************************************************)
(* Families of grammars, enumerated exhaustively: for every property the   *)
(* set of small grammars in which what it speaks about can go wrong.       *)
(* A program is [main |-> expression, rules |-> <<[e, rt], ...>>].         *)
(* Scale (0 quick, 1 thorough) widens them.                                *)
(***************************************************************************)
EXTENDS Machine

CONSTANT Scale

EX(o, s, n, f, c, ms) == [o |-> o, s |-> s, n |-> n, f |-> f, c |-> c, m |-> ms]
MD(o, n, f, c, ms) == [o |-> o, n |-> n, f |-> f, c |-> c, m |-> ms]

a_ == 97  b_ == 98  c_ == 44
XAny(s)  == EX("any", s, 0, "", <<>>, <<>>)
XNone(s) == EX("none", s, 0, "", <<>>, <<>>)
XAll(s)  == EX("all", s, 0, "", <<>>, <<>>)
XIgnl(s) == EX("ignl", s, 0, "", <<>>, <<>>)
XAnyv    == EX("anyv", <<>>, 0, "", <<>>, <<>>)
XEps     == EX("eps", <<>>, 0, "", <<>>, <<>>)
XOr(x, y)  == EX("or", <<>>, 0, "", <<x, y>>, <<>>)
XOrEps(x)  == EX("oreps", <<>>, 0, "", <<x>>, <<>>)
XSeq(x, y) == EX("seq", <<>>, 0, "", <<x, y>>, <<>>)
XNot(x)  == EX("not", <<>>, 0, "", <<x>>, <<>>)
XOpt(x)  == EX("opt", <<>>, 0, "", <<x>>, <<>>)
XPlus(x) == EX("plus", <<>>, 0, "", <<x>>, <<>>)
XStar(x) == EX("star", <<>>, 0, "", <<x>>, <<>>)
XMod(x, md) == EX("mod", <<>>, 0, "", <<x>>, <<md>>)
XRule(i) == EX("rule", <<>>, i, "", <<>>, <<>>)
RECURSIVE XOrs(_), XSeqs(_)
XOrs(xs)  == IF Len(xs) = 1 THEN xs[1] ELSE XOr(XOrs(SubSeq(xs, 1, Len(xs) - 1)), xs[Len(xs)])
XSeqs(xs) == IF Len(xs) = 1 THEN xs[1] ELSE XSeq(XSeqs(SubSeq(xs, 1, Len(xs) - 1)), xs[Len(xs)])

MIgn == MD("ign", 0, "", <<>>, <<>>)
MCom == MD("com", 0, "", <<>>, <<>>)
MJoi == MD("joi", 0, "", <<>>, <<>>)
MExa(n) == MD("exa", n, "", <<>>, <<>>)
MMap(f, n) == MD("map", n, f, <<>>, <<>>)
MFil(f, n) == MD("fil", n, f, <<>>, <<>>)
MDel(d)  == MD("del", 0, "", <<d>>, <<>>)
MDelk(d) == MD("delk", 0, "", <<d>>, <<>>)
MNam(f) == MD("nam", 0, f, <<>>, <<>>)
MMulti(ms) == MD("multi", 0, "", <<>>, ms)
MSub(ss) == MD("sub", 0, "", <<>>, ss)
SubEq(f, md) == [o |-> "s", n |-> 0, f |-> f, c |-> <<>>, m |-> <<md>>]

Un3(S) == {XOpt(x) : x \in S} \cup {XPlus(x) : x \in S} \cup {XStar(x) : x \in S}
UnAll(S) == Un3(S) \cup {XMod(x, MExa(2)) : x \in S} \cup {XMod(x, MIgn) : x \in S}
Bin2(S, T) == {XOr(x, y) : x \in S, y \in T} \cup {XSeq(x, y) : x \in S, y \in T}
BinAll(S, T) == Bin2(S, T) \cup {XMod(x, MDel(y)) : x \in S, y \in T}
Mods(S, Ms) == {XMod(x, md) : x \in S, md \in Ms}
Tuples(S, n) == [1..n -> S]

A1 == XAny(<<a_>>)   B1 == XAll(<<b_>>)   AB == XAll(<<a_, b_>>)   AA == XAll(<<a_, a_>>)
IA == XIgnl(<<a_>>)  IB == XIgnl(<<b_>>)  NA == XNone(<<a_>>)
L3 == {A1, AB, IB}
L5 == {A1, AB, IB, NA, XEps}

P0(x) == [main |-> x, rules |-> <<>>]
Progs0(S) == {P0(x) : x \in S}

(* --- C01 C02 C03: everything small ------------------------------------ *)
FamCore == Progs0(L5 \cup UnAll(L5) \cup BinAll(L5, L5)
                  \cup UnAll(Bin2(L3, L3)) \cup BinAll(Un3({A1, AB}), L3) \cup Bin2(L3, Un3({A1, AB}))
                  \cup (IF Scale = 0 THEN {} ELSE UnAll(BinAll(L5, L5)) \cup BinAll(BinAll(L3, L3), L3) \cup BinAll(L3, UnAll(L5))))
FamBack == LET half == {XSeq(A1, B1), XSeq(IA, B1), XSeq(AB, A1), XMod(A1, MExa(2)), XMod(XSeq(A1, B1), MExa(2)),
                        XMod(A1, MDel(XSeq(B1, B1))), XMod(A1, MDelk(AB)), XMod(AB, MJoi), XMod(A1, MCom)}
               tail == {AA, XOpt(B1), XMod(AB, MIgn), XEps}
           IN Progs0({XOr(x, y) : x \in half, y \in tail} \cup {XSeq(XOpt(x), y) : x \in half, y \in tail}
                     \cup {XSeq(XStar(x), y) : x \in half, y \in tail} \cup {XSeq(A1, XOr(x, y)) : x \in half, y \in {AA, IB}}
                     \cup {XMod(x, MDel(B1)) : x \in half})
FamLook == LET gates == {MFil("fP", 200), MFil("fF", 0), MJoi, MMap("mI", 1), MIgn, MCom, MExa(2)}
               base  == {A1, XSeq(A1, B1), XSeq(XSeq(A1, IB), A1), XOpt(A1), XStar(XSeq(A1, B1))}
           IN Progs0(Mods(base, gates) \cup {XSeq(x, A1) : x \in Mods(base, gates)} \cup {XOr(x, AA) : x \in Mods(base, gates)}
                     \cup Mods(Mods(base, {MIgn, MFil("fP", 201)}), {MExa(2), MDel(B1), MIgn}))

(* --- C04: types -------------------------------------------------------- *)
FamType == LET parts == {A1, IB, XOpt(A1), XMod(A1, MMap("mI", 0)), XMod(XOpt(A1), MIgn)}
           IN Progs0({XSeqs(t) : t \in Tuples(parts, 3)} \cup {XOrs(t) : t \in Tuples(parts, 3)}
                     \cup {f : f \in UnAll(parts) \cup UnAll(UnAll({A1, IA}))}
                     \cup {XMod(x, MDelk(y)) : x \in parts, y \in parts})

(* --- C05: where spans are ---------------------------------------------- *)
FamSpan == LET part == {A1, AB, IB, XStar(A1), XOpt(AB), XMod(A1, MExa(2))}
           IN Progs0({XSeqs(t) : t \in Tuples(part, 3)} \cup {XMod(x, MDelk(y)) : x \in part, y \in {B1, AB, XSeq(A1, B1)}}
                     \cup {XPlus(XSeq(x, y)) : x \in part, y \in {A1, IB, AB}})

(* --- C06: choices with all arrangements of types ------------------------ *)
AltOf(k, i) == LET lead == IF i % 2 = 1 THEN A1 ELSE XAll(<<a_, b_>>) IN
  CASE k = "S" -> XMod(XSeq(XAny(<<a_, b_>>), XMod(XAll(<<a_ + i>>), MIgn)), MFil("fT", 0))
    [] k = "V" -> XSeq(XIgnl(<<b_>>), XIgnl(<<a_ + i>>))
    [] k = "i" -> XMod(XSeq(XAny(<<a_, b_>>), XAll(<<a_ + i>>)), MMap("mI", i))
    [] k = "o" -> XMod(XSeq(XAny(<<a_, b_>>), XAll(<<a_ + i>>)), MMap("mO", i))
FamChoice == LET ks == {"S", "V", "i", "o"}
                 n == IF Scale = 0 THEN 4 ELSE 5
             IN Progs0({XOrs([i \in 1..n |-> AltOf(t[i], i - 1)]) : t \in Tuples(ks, n)})

(* --- C07: repetition ----------------------------------------------------- *)
FamRep == LET item == {A1, AB, IA, XSeq(A1, IB), XSeq(A1, XOpt(B1)), XOr(AB, A1), XSeq(A1, B1)}
              it1 == Un3(item) \cup {XMod(x, MExa(n)) : x \in item, n \in {1, 2, 3}}
          IN Progs0(it1 \cup {XSeq(x, y) : x \in it1, y \in {A1, IB}}
                    \cup {XStar(XSeq(x, B1)) : x \in it1} \cup {XMod(XSeq(x, B1), MExa(2)) : x \in it1})

(* --- C08: delimited lists ------------------------------------------------ *)
FamDel == LET item == {A1, AB, IA, XSeq(A1, IB), XSeq(A1, B1), XOpt(A1), XPlus(A1), XMod(A1, MDelk(B1))}
              sep  == {B1, IB, AB, XSeq(B1, IA), XSeq(B1, B1), XPlus(B1), XAny(<<a_, b_>>), XOpt(B1)}
              ds == {XMod(x, MDel(y)) : x \in item, y \in sep} \cup {XMod(x, MDelk(y)) : x \in item, y \in sep}
          IN Progs0(ds \cup {XSeq(x, XStar(XAnyv)) : x \in ds})

(* --- C09: join ------------------------------------------------------------ *)
FamJoin == LET base == {A1, AB, NA, XAnyv, XAll(<<>>)}
               rep == Un3(base \ {XAll(<<>>)}) \cup {XMod(x, MExa(n)) : x \in base, n \in {1, 2, 3}}
               nest == {XSeq(A1, B1), XSeq(XSeq(A1, IB), XOpt(A1)), XSeq(IA, XStar(A1)), XSeq(XStar(A1), XOpt(IB)),
                        XStar(XSeq(A1, XOpt(B1))), XStar(XSeq(IA, B1)), XSeq(XMod(A1, MExa(2)), XPlus(AB)),
                        XMod(A1, MDel(B1)), XMod(XOpt(A1), MDel(B1)), XSeq(XOpt(A1), XOpt(B1)), XPlus(XPlus(AB)),
                        XOpt(XSeq(XOpt(A1), XSeq(XOpt(IB), XOpt(A1)))), XSeq(XAll(<<>>), A1), XOr(AB, A1)}
           IN Progs0(Mods(base \cup rep \cup nest, {MJoi})
                     \cup {XSeq(XOpt(B1), XMod(x, MJoi)) : x \in rep \cup nest}
                     \cup {XMod(XSeq(XMod(x, MJoi), y), MJoi) : x \in rep, y \in {B1, IB}})

(* --- C10: simplification -------------------------------------------------- *)
\* the same operand under two operators, side by side
SameTwice == LET u(x) == {x, XOpt(x), XPlus(x), XStar(x), XOrEps(x), XMod(x, MIgn)}
             IN UNION {u(x) \X u(x) : x \in {A1, IA, AB}}
FamSimp == LET l == {A1, AB, B1, NA, IA}
               u1 == Un3(l)
               u2 == Un3(Un3({A1, AB}))
               b1 == Bin2(l, l)
           IN Progs0(u2 \cup Un3(u2) \cup b1 \cup {XOrEps(x) : x \in b1 \cup u1}
                     \cup {XOr(x, y) : x \in Bin2({A1, AB}, {B1, NA}), y \in Bin2({A1, B1}, {AB, A1})}
                     \cup {XSeq(x, y) : x \in Bin2({A1, AB}, {B1, AB}), y \in Bin2({A1, B1}, {AB, A1})}
                     \cup {XSeq(x[1], x[2]) : x \in SameTwice} \cup {XOr(x[1], x[2]) : x \in SameTwice}
                     \cup {XOr(x, x) : x \in b1} \cup Mods(Mods(b1, {MIgn, MCom}), {MIgn, MCom}))

(* --- C11: character classes ----------------------------------------------- *)
Cls == {XAny(s) : s \in {<<>>, <<a_>>, <<b_, a_>>, <<a_, c_, a_>>}} \cup {XNone(s) : s \in {<<>>, <<b_>>, <<c_, a_>>, <<a_, b_, c_, b_>>}}
FamClass == LET c1 == Cls \cup {XNot(x) : x \in Cls} \cup {XNot(XNot(x)) : x \in Cls}
                c2 == {XOr(x, y) : x \in c1, y \in Cls}
            IN Progs0(c1 \cup c2 \cup {XNot(x) : x \in {XOr(x1, y1) : x1 \in Cls, y1 \in Cls}} \cup {XOr(XOr(x, y), z) : x \in Cls, y \in Cls, z \in {XAny(<<c_>>), XNone(<<a_, c_>>)}})

(* --- C12: modifiers --------------------------------------------------------- *)
ModSet == {MIgn, MCom, MJoi, MExa(2), MMap("mI", 2), MFil("fP", 201), MDel(B1), MNam("x")}
FamMod == LET xs == {A1, XSeq(A1, B1), XPlus(A1)}
          IN Progs0({XMod(x, MMulti(<<m1, m2>>)) : x \in xs, m1 \in ModSet, m2 \in ModSet}
                    \cup {XMod(x, MMulti(<<m1, MMulti(<<m2, m3>>)>>)) : x \in {XPlus(A1)}, m1 \in ModSet, m2 \in ModSet, m3 \in {MIgn, MCom, MMap("mI", 1)}}
                    \cup {XMod(XMod(x, m1), m1) : x \in xs, m1 \in {MIgn, MCom, MJoi}})

(* --- C13: names and substitution --------------------------------------------- *)
Nx(x, f) == XMod(x, MNam(f))
SubMods == {MIgn, MJoi, MExa(2), MMap("mI", 5), MFil("fF", 0), MNam("y"), MMulti(<<MExa(2), MJoi>>)}
FamSub == LET inner == {Nx(A1, "x"), Nx(A1, "y"), Nx(XSeq(A1, Nx(B1, "x")), "y"), Nx(XSeq(A1, Nx(B1, "x")), "L:x"), Nx(Nx(A1, "x"), "x"), Nx(XSeq(A1, B1), "x")}
              ctx == inner \cup {XSeq(x, B1) : x \in inner} \cup {XOr(XSeq(x, B1), A1) : x \in inner} \cup {XStar(XSeq(x, IB)) : x \in inner}
                     \cup {XMod(x, MDel(Nx(B1, "x"))) : x \in inner} \cup {XMod(XMod(x, MExa(2)), MMap("mI", 1)) : x \in inner}
                     \cup {XMod(XOpt(x), MIgn) : x \in inner}
          IN Progs0({XMod(x, MSub(<<SubEq("x", md)>>)) : x \in ctx, md \in SubMods}
                    \cup {XMod(x, MSub(<<SubEq("y", md), SubEq("x", MMap("mI", 7))>>)) : x \in ctx, md \in {MIgn, MNam("x"), MMap("mK", 1)}}
                    \cup ctx)

(* --- C14 C21 C22: user functions ------------------------------------------------ *)
FamCall == LET f1 == {XMod(A1, MMap("mI", 1)), XMod(AB, MMap("mV", 2)), XMod(XSeq(A1, B1), MFil("gP", 201)), XMod(IA, MMap("mV", 3)),
                      XMod(A1, MFil("fF", 0)), XMod(XMod(IA, MMap("mV", 4)), MFil("fT", 5)), XMod(XSeq(A1, B1), MMap("aU", 6))}
           IN Progs0(f1 \cup BinAll(f1, f1) \cup UnAll(f1) \cup {XMod(x, MDelk(y)) : x \in f1, y \in f1}
                     \cup {XMod(x, MMap("mI", 9)) : x \in Bin2(f1, f1)} \cup UnAll({XSeq(x, B1) : x \in f1}))
FamVal == LET shapes == {A1, IA, XOpt(A1), XStar(A1), XMod(A1, MExa(2)), XSeq(A1, B1), XOr(XSeq(A1, B1), AA), XMod(A1, MDelk(B1)),
                         XMod(XSeq(A1, B1), MMap("aU", 0)), XMod(XMod(A1, MMap("mU", 3)), MExa(2)), XSeq(XMod(A1, MMap("mU", 1)), XMod(B1, MMap("mU", 2)))}
              fs == {MMap(f, 3) : f \in {"mI", "mB", "mK", "mU", "mV", "mM", "mO", "aI", "aR", "aU", "into", "ainto", "cI", "cK", "dI", "dK"}}
              vs == Mods(shapes, fs)
          IN Progs0(vs \cup {XSeq(x, B1) : x \in vs} \cup {XStar(x) : x \in Mods({A1, XSeq(A1, B1)}, fs)})
FamFil == LET shapes == {A1, IA, XOpt(A1), XPlus(A1), XSeq(A1, XAny(<<a_, b_>>)), XMod(A1, MDelk(B1)), XMod(XAny(<<a_, b_>>), MExa(2))}
              fs == {MFil("fP", 200), MFil("fP", 201), MFil("fI", 3), MFil("gP", 200), MFil("fF", 1), MFil("fT", 1)}
              vs == Mods(shapes, fs)
          IN Progs0(vs \cup {XSeq(x, XOpt(B1)) : x \in vs} \cup {XOr(x, XStar(XAnyv)) : x \in vs} \cup {XSeq(XStar(x), XAnyv) : x \in Mods({A1, IA, XSeq(A1, B1)}, fs)} \cup {XMod(x, MDel(B1)) : x \in vs})

(* --- C15: complete ------------------------------------------------------------------ *)
FamCom == LET xs == {A1, AB, XStar(A1), XOpt(B1), XSeq(A1, B1), XEps, XOr(A1, AB), XMod(A1, MDel(B1)), XMod(XPlus(A1), MJoi), IA, XMod(A1, MMap("mI", 1))}
              cs == Mods(xs, {MCom})
          IN Progs0(cs \cup {XOr(x, A1) : x \in cs} \cup {XSeq(XOpt(B1), x) : x \in cs} \cup {XSeq(x, XOpt(B1)) : x \in cs}
                    \cup {XOpt(x) : x \in cs} \cup Mods(cs, {MIgn, MExa(1), MMap("mI", 2), MNam("n")}))

(* --- C18: rules ---------------------------------------------------------------------- *)
R(e, rt) == [e |-> e, rt |-> rt]
FamRule ==
  LET rec == {XSeq(A1, XOpt(XSeq(XRule(1), B1))), XSeq(A1, XOr(XRule(1), B1)), XOr(XSeq(A1, XRule(1)), B1), XSeq(XIgnl(<<a_>>), XOrEps(XRule(1))),
              XSeq(A1, XStar(XRule(1))), XMod(A1, MDel(XSeq(IB, XMod(XRule(1), MIgn)))), XSeq(A1, XMod(XOpt(XRule(1)), MMap("mI", 1)))}
      mut == {<<XSeq(A1, XOpt(XRule(2))), XSeq(B1, XOpt(XRule(1)))>>, <<XOr(XSeq(A1, XRule(2)), AA), XOr(XSeq(B1, XRule(1)), B1)>>}
      wraps(x) == {x, XSeq(x, XOpt(B1)), XStar(x), XOpt(x), XMod(x, MCom), XMod(x, MIgn), XOr(XMod(x, MCom), AA)}
      plain == {A1, XSeq(A1, B1), XOpt(A1), XMod(AB, MIgn), XMod(A1, MMap("mI", 0)), XMod(A1, MMap("mI", 1)), XMod(XPlus(A1), MJoi), XMod(A1, MFil("fF", 0)), XMod(XSeq(A1, B1), MMap("aU", 1))}
  IN {[main |-> y, rules |-> <<R(x, "rb")>>] : x \in rec, y \in wraps(XRule(1))}
     \cup {[main |-> y, rules |-> <<R(t[1], "rb"), R(t[2], "rb")>>] : t \in mut, y \in wraps(XRule(1))}
     \cup {[main |-> y, rules |-> <<R(x, rt)>>] : x \in plain, rt \in {"-", "rb", "b", "l", "os", "sv", "void"}, y \in {XRule(1), XSeq(XRule(1), B1), XOr(XRule(1), XAnyv), XStar(XRule(1))}}

FamilyOf(prop) ==
  CASE prop = "C01" -> FamCore
    [] prop = "C02" -> FamBack
    [] prop = "C03" -> FamLook
    [] prop = "C04" -> FamType
    [] prop = "C05" -> FamSpan
    [] prop = "C06" -> FamChoice
    [] prop = "C07" -> FamRep
    [] prop = "C08" -> FamDel
    [] prop = "C09" -> FamJoin
    [] prop = "C10" -> FamSimp
    [] prop = "C11" -> FamClass
    [] prop = "C12" -> FamMod
    [] prop = "C13" -> FamSub
    [] prop = "C14" -> FamCall
    [] prop = "C15" -> FamCom
    [] prop = "C16" -> FamJoin
    [] prop = "C17" -> FamSpan
    [] prop = "C18" -> FamRule
    [] prop = "C20" -> FamCall
    [] prop = "C21" -> FamVal
    [] prop = "C22" -> FamFil

GrammarOfP(p) == Grammar(Norm(p.main), [i \in 1..Len(p.rules) |-> [b |-> Norm(p.rules[i].e), rt |-> p.rules[i].rt]])
Strings(S, n) == UNION {[1..k -> S] : k \in 0..n}
Alphabet(prop) == IF prop = "C11" THEN {a_, b_, c_, 100} ELSE IF prop = "C06" THEN {a_, b_, c_ + 55, 100, 101} ELSE {a_, b_}
MaxLen(prop) == CASE prop = "C11" -> 2 [] prop = "C06" -> 2 [] OTHER -> 4 + Scale
=============================================================================
