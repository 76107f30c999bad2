--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Model checking: every grammar of a family, every input up to a length,  *)
(* both modes; the machine of Machine.tla runs on each.                    *)
(* Checked in every state: the machine invariants; at the end of every     *)
(* run: agreement with the big-step meaning, typing of the value; and the  *)
(* laws that the properties state, on which the meaning itself is tested.  *)
(***************************************************************************)
EXTENDS Families, Json, IOUtils

PropV  == IOEnv.TOK_PROP
ScaleV == atoi(IOEnv.TOK_SCALE)
CONSTANT Prop

(* The grammars of the family, enumerated and elaborated by Export.tla. *)
Words == Strings(Alphabet(Prop), MaxLen(Prop))

VARIABLES prog, w, md, m      \* prog = [main, rules, g]: constant along a behaviour
vars == <<prog, w, md, m>>
g == prog.g

Init == /\ prog \in Range0(ndJsonDeserialize(IOEnv.TOK_IN))
        /\ w \in Words /\ md \in {"P", "L"}
        /\ m = Start(prog.g, md)

Step(Can, New) == Can /\ m' = New /\ UNCHANGED <<prog, w, md>>
aLeafMatch  == Step(CanLeafMatch(g, w, m), LeafMatch(g, w, m))
aLeafFail   == Step(CanLeafFail(g, w, m), LeafFail(g, w, m))
aEps        == Step(CanEps(g, w, m), EpsSucceed(g, w, m))
aChoTry     == Step(CanChoTry(g, w, m), ChoTry(g, w, m))
aChoNext    == Step(CanChoNext(g, w, m), ChoNext(g, w, m))
aChoFail    == Step(CanChoFail(g, w, m), ChoFail(g, w, m))
aChoTake    == Step(CanChoTake(g, w, m), ChoTake(g, w, m))
aSeqBegin   == Step(CanSeqBegin(g, w, m), SeqBegin(g, w, m))
aSeqNext    == Step(CanSeqNext(g, w, m), SeqNext(g, w, m))
aSeqDone    == Step(CanSeqDone(g, w, m), SeqDone(g, w, m))
aSeqFail    == Step(CanSeqFail(g, w, m), SeqFail(g, w, m))
aMayTry     == Step(CanMayTry(g, w, m), MayTry(g, w, m))
aMaySome    == Step(CanMaySome(g, w, m), MaySome(g, w, m))
aMayNone    == Step(CanMayNone(g, w, m), MayNone(g, w, m))
aRepBegin   == Step(CanRepBegin(g, w, m), RepBegin(g, w, m))
aRepMore    == Step(CanRepMore(g, w, m), RepMore(g, w, m))
aExaDone    == Step(CanExaDone(g, w, m), ExaDone(g, w, m))
aRepStop    == Step(CanRepStop(g, w, m), RepStop(g, w, m))
aRepFail    == Step(CanRepFail(g, w, m), RepFail(g, w, m))
aDelBegin   == Step(CanDelBegin(g, w, m), DelBegin(g, w, m))
aDelFail    == Step(CanDelFail(g, w, m), DelFail(g, w, m))
aDelItem    == Step(CanDelItem(g, w, m), DelItem(g, w, m))
aDelSep     == Step(CanDelSep(g, w, m), DelSep(g, w, m))
aDelNoSep   == Step(CanDelStopNoSep(g, w, m), DelStopNoSep(g, w, m))
aDelNoItem  == Step(CanDelStopNoItem(g, w, m), DelStopNoItem(g, w, m))
aIgnEnter   == Step(CanIgnEnter(g, w, m), IgnEnter(g, w, m))
aIgnLeave   == Step(CanIgnLeave(g, w, m), IgnLeave(g, w, m))
aWrapEnter  == Step(CanWrapEnter(g, w, m), WrapEnter(g, w, m))
aWrapFail   == Step(CanWrapFail(g, w, m), WrapFail(g, w, m))
aNamLeave   == Step(CanNamLeave(g, w, m), NamLeave(g, w, m))
aComAll     == Step(CanComAll(g, w, m), ComAll(g, w, m))
aComRest    == Step(CanComRest(g, w, m), ComRest(g, w, m))
aPassLook   == Step(CanPassLook(g, w, m), PassLook(g, w, m))
aJoin       == Step(CanJoin(g, w, m), Join(g, w, m))
aJoinGap    == Step(CanJoinGap(g, w, m), JoinGap(g, w, m))
aMapCall    == Step(CanMapCall(g, w, m), MapCall(g, w, m))
aFilAccept  == Step(CanFilAccept(g, w, m), FilAccept(g, w, m))
aFilReject  == Step(CanFilReject(g, w, m), FilReject(g, w, m))
aRuleEnter  == Step(CanRuleEnter(g, w, m), RuleEnter(g, w, m))
aRuleLeave  == Step(CanRuleLeave(g, w, m), RuleLeave(g, w, m))
Stop == Finished(m) /\ UNCHANGED vars

Next == \/ aLeafMatch \/ aLeafFail \/ aEps
        \/ aChoTry \/ aChoNext \/ aChoFail \/ aChoTake
        \/ aSeqBegin \/ aSeqNext \/ aSeqDone \/ aSeqFail
        \/ aMayTry \/ aMaySome \/ aMayNone
        \/ aRepBegin \/ aRepMore \/ aExaDone \/ aRepStop \/ aRepFail
        \/ aDelBegin \/ aDelFail \/ aDelItem \/ aDelSep \/ aDelNoSep \/ aDelNoItem
        \/ aIgnEnter \/ aIgnLeave \/ aWrapEnter \/ aWrapFail \/ aNamLeave
        \/ aComAll \/ aComRest \/ aPassLook \/ aJoin \/ aJoinGap
        \/ aMapCall \/ aFilAccept \/ aFilReject \/ aRuleEnter \/ aRuleLeave
        \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(Finished(m))      \* also: no state is stuck (deadlock check)

-----------------------------------------------------------------------------
Bounds     == InBounds(w, m)
Nested     == StackNested(m)
Restores   == FailureRestores(m)
Advances   == SuccessAdvances(m)
Sticks     == LookSticks(m)
NoLookVal  == LookHasNoValue(m)
WithinMatch == ValueWithinMatch(m)
LogInPrefix == [][IsPrefix(m.log, m'.log) /\ Len(m'.log) <= Len(m.log) + 1]_vars
LookCallsNothing == [][md = "L" => m'.log = m.log]_vars

\* the machine ends where the big-step meaning says
Agrees == Finished(m) =>
  LET r == Ev(g, w, g.main, 0, md) IN
  m.ret.ok = r.ok /\ m.ret.p = r.p /\ m.ret.v = r.v /\ m.log = r.l
WellTyped == Finished(m) /\ m.ret.ok => IF md = "L" THEN m.ret.v = NIL ELSE HasType(m.ret.v, g.main.ty)

-----------------------------------------------------------------------------
(* Laws.  They are evaluated once per grammar and input (in the initial    *)
(* state of the parse).                                                    *)
E0(e) == GrammarOfP([main |-> e, rules |-> prog.rules])
PE(e) == Parse(E0(e), w)
LE(e) == Look(E0(e), w)
Same(r, s) == r.ok = s.ok /\ r.p = s.p /\ r.v = s.v
SamePos(r, s) == r.ok = s.ok /\ r.p = s.p
RECURSIVE Uses(_, _)
Uses(a, ts) == a.t \in ts \/ \E i \in 1..Len(a.c) : Uses(a.c[i], ts)
GUses(gr, ts) == Uses(gr.main, ts) \/ \E i \in 1..Len(gr.rules) : Uses(gr.rules[i].b, ts)

(* C01: parsing expressions, declaratively: M(a,i,j): a matches w[i..j).   *)
RECURSIVE MM(_, _, _), Chain(_, _, _, _), RepChain(_, _, _, _), DelChain(_, _, _)
MAny(a, i) == \E j \in i..Len(w) : MM(a, i, j)
MM(a, i, j) ==
  CASE a.t \in {"any", "none", "anything"} -> j = i + 1 /\ LeafLen(w, a, i) = 1
    [] a.t = "all" -> j = i + Len(a.s) /\ j <= Len(w) /\ SubSeq(w, i + 1, j) = a.s
    [] a.t = "eps" -> j = i
    [] a.t = "cho" -> \E k \in 1..Len(a.c) : MM(a.c[k], i, j) /\ \A q \in 1..(k-1) : ~MAny(a.c[q], i)
    [] a.t = "seq" -> Chain(a.c, 1, i, j)
    [] a.t = "may" -> MM(a.c[1], i, j) \/ (j = i /\ ~MAny(a.c[1], i))
    [] a.t = "zom" -> \E n \in 0..(j - i) : RepChain(a.c[1], n, i, j) /\ ~MAny(a.c[1], j)
    [] a.t = "oom" -> \E n \in 1..(j - i) : RepChain(a.c[1], n, i, j) /\ ~MAny(a.c[1], j)
    [] a.t = "exa" -> RepChain(a.c[1], a.n, i, j)
    [] a.t = "del" -> /\ \E k \in i..j : MM(a.c[1], i, k) /\ DelChain(a, k, j)
                      /\ ~\E k \in j..Len(w) : MM(a.c[2], j, k) /\ MAny(a.c[1], k)
    [] a.t = "com" -> j = Len(w) /\ MM(a.c[1], i, j)
    [] a.t = "cus" -> MM(g.rules[a.n].b, i, j)
    [] OTHER -> MM(a.c[1], i, j)
Chain(cs, k, i, j) == IF k > Len(cs) THEN i = j ELSE \E q \in i..j : MM(cs[k], i, q) /\ Chain(cs, k + 1, q, j)
RepChain(a, n, i, j) == IF n = 0 THEN i = j ELSE \E q \in i..j : MM(a, i, q) /\ RepChain(a, n - 1, q, j)
DelChain(a, i, j) == i = j \/ \E p \in i..j, q \in i..j : p <= q /\ q > i /\ MM(a.c[2], i, p) /\ MM(a.c[1], p, q) /\ DelChain(a, q, j)
LawAccept == ~GUses(g, {"fil", "joi"}) =>
  LET r == Parse(g, w) IN
  /\ r.ok <=> MAny(g.main, 0)
  /\ r.ok => MM(g.main, 0, r.p) /\ \A j \in 0..Len(w) : MM(g.main, 0, j) => j = r.p

(* C02: if x fails then x|y is y, ~x is nothing, x>>y and x{n} fail at the *)
(* start; everything after a failure is as if it had never been tried.     *)
LawNoTrace ==
  LET r == Parse(g, w)  l == Look(g, w) IN
  /\ ~r.ok => r.p = 0 /\ r.v = NIL
  /\ ~l.ok => l.p = 0
  /\ g.main.t = "cho" =>
       \A k \in 1..Len(g.main.c) :
         (\A q \in 1..(k-1) : ~Ev(g, w, g.main.c[q], 0, "P").ok)
         => LET s == Ev(g, w, g.main.c[k], 0, "P") IN s.ok => r.ok /\ r.p = s.p
  /\ g.main.t = "may" /\ ~Ev(g, w, g.main.c[1], 0, "P").ok => r.ok /\ r.p = 0

(* C03 *)
RECURSIVE GapsOrFilters(_)
LawLook == ~GUses(g, {"fil", "joi"}) => SamePos(Parse(g, w), Look(g, w)) /\ Look(g, w).l = <<>> /\ Look(g, w).v = NIL
RECURSIVE Unfiltered(_)
GapsOrFilters(a) == Uses(a, {"fil", "joi"})
Unfiltered(a) == IF a.t \in {"fil", "joi"} THEN Unfiltered(a.c[1])
                 ELSE [a EXCEPT !.c = [i \in 1..Len(a.c) |-> Unfiltered(a.c[i])]]
UnfilteredG(gr) == [main |-> Unfiltered(gr.main), rules |-> [i \in 1..Len(gr.rules) |-> [gr.rules[i] EXCEPT !.b = Unfiltered(@)]]]
LawLookUnfiltered == SamePos(Look(g, w), Look(UnfilteredG(g), w))

(* C04 *)
LawType == LET r == Parse(g, w) IN r.ok => HasType(r.v, g.main.ty)

(* C05: the non-empty spans of a value are in order and do not overlap     *)
(* (no user functions here); with nothing ignored they cover the match.    *)
OrderedSpans(ss) == \A i \in 1..(Len(ss) - 1) : ss[i].n + ss[i].m <= ss[i+1].n
RECURSIVE SumLen(_)
SumLen(ss) == IF ss = <<>> THEN 0 ELSE ss[1].m + SumLen(Tail(ss))
LawSpans == ~GUses(g, {"map", "cus", "cho", "joi"}) => LET r == Parse(g, w) IN r.ok =>
  /\ (g.main.ty.k # "p" /\ ~GUses(g, {"del"})) => OrderedSpans(NonEmptySpans(r.v))
  /\ \A i \in 1..Len(SpansOf(r.v)) : LET s == SpansOf(r.v)[i] IN s.n >= 0 /\ s.n + s.m <= r.p
  /\ ~GUses(g, {"ign", "del"}) => SumLen(SpansOf(r.v)) = r.p

(* C06: the value of a choice is that of the first alternative that        *)
(* succeeds, in the member of that alternative's type.                     *)
LawChoice == g.main.t = "cho" =>
  LET r == Parse(g, w)
      oks == {k \in 1..Len(g.main.c) : Ev(g, w, g.main.c[k], 0, "P").ok}
  IN /\ r.ok <=> oks # {}
     /\ oks # {} =>
        LET k == CHOOSE x \in oks : \A y \in oks : x <= y
            s == Ev(g, w, g.main.c[k], 0, "P")
            ty == g.main.c[k].ty
            dist == Cardinality({g.main.c[i].ty : i \in 1..Len(g.main.c)} \ {TVoid})
        IN /\ r.p = s.p
           /\ IsVoid(ty) => r.v = IF dist = 0 THEN NIL ELSE Default(g.main.ty)
           /\ ~IsVoid(ty) /\ dist = 1 => r.v = s.v
           /\ ~IsVoid(ty) /\ dist > 1 => r.v.k = "x" /\ r.v.e = <<s.v>> /\ g.main.ty.e[r.v.n + 1] = ty

(* C07: P{n} is P>>P>>..., *P is (P *P)?, +P is P>>*P                       *)
RECURSIVE Times(_, _)
Times(x, n) == IF n = 1 THEN x ELSE XSeq(Times(x, n - 1), x)
Prefixed(v, n, vs) == Len(v.e) = n + Len(vs.e)
IsMod(e, o) == e.o = "mod" /\ e.m[1].o = o
LawRep ==
  LET e == prog.main  r == Parse(g, w) IN
  /\ e.o = "star" /\ g.main.t = "zom" /\ Norm(e.c[1]) = Norm(e.c[1]) =>
       LET x == Ev(g, w, g.main.c[1], 0, "P") IN
       /\ r.ok
       /\ ~x.ok => r.p = 0
       /\ x.ok => LET rest == Ev(g, w, g.main, x.p, "P") IN
                  r.p = rest.p /\ (~IsVoid(g.main.ty) => r.v.e = <<x.v>> \o rest.v.e)
  /\ g.main.t = "oom" =>
       LET x == Ev(g, w, g.main.c[1], 0, "P")
           z == Ev(g, w, [g.main EXCEPT !.t = "zom"], 0, "P")
       IN (r.ok <=> x.ok) /\ (x.ok => r.p = z.p /\ r.v = z.v)
  /\ g.main.t = "exa" =>
       LET s == PE(Times(e.c[1], e.m[1].n)) IN SamePos(r, s) /\ (r.ok /\ ~IsVoid(g.main.ty) => Len(r.v.e) = g.main.n)
  /\ g.main.t = "may" => LET x == Ev(g, w, g.main.c[1], 0, "P") IN
       r.ok /\ r.p = x.p /\ (~IsVoid(g.main.ty) => r.v.e = IF x.ok THEN <<x.v>> ELSE <<>>)

(* C08: P % delimit(D) matches as P >> *(D_ign >> P) does, with all items *)
LawDel ==
  LET e == prog.main IN
  e.o = "mod" /\ e.m[1].o \in {"del", "delk"} =>
    LET r == Parse(g, w)
        d == e.m[1].c[1]
        flat == XSeq(e.c[1], XStar(XSeq(IF e.m[1].o = "del" THEN XMod(d, MIgn) ELSE d, e.c[1])))
        fg == E0(flat)
    IN Valid(fg) =>
       /\ SamePos(r, Parse(fg, w)) /\ SamePos(Look(g, w), Look(fg, w))
       /\ (r.ok /\ g.main.ty.k = "p") => Len(r.v.e[1].e) = Len(r.v.e[2].e) + 1
       /\ (r.ok /\ r.v.k = "v" /\ ~IsVoid(g.main.c[1].ty)) => Len(r.v.e) >= 1

(* C09 *)
LawJoin == g.main.t = "joi" =>
  LET r == Parse(g, w)
      x == Ev(g, w, g.main.c[1], 0, "P")
      ss == NonEmptySpans(x.v)
      Cover == UNION {(ss[i].n)..(ss[i].n + ss[i].m - 1) : i \in 1..Len(ss)}
  IN /\ ~x.ok => ~r.ok
     /\ r.ok => r.p = x.p
     /\ x.ok => (r.ok <=> (\E lo \in 0..Len(w), hi \in 0..Len(w) : Cover = lo..(hi-1)) /\ OrderedSpans(ss))
     /\ r.ok /\ Cover # {} => (r.v.n)..(r.v.n + r.v.m - 1) = Cover
     /\ r.ok /\ Cover = {} => r.v = SpanV(x.p, 0)

(* C10: the simplified parser accepts and consumes as the unsimplified.    *)
LawSimp == LET a == Naive(prog.main)
               ng == Grammar(a, [i \in 1..Len(prog.rules) |-> [b |-> Naive(prog.rules[i].e), rt |-> prog.rules[i].rt]])
           IN Valid(ng) => SamePos(Parse(g, w), Parse(ng, w)) /\ SamePos(Look(g, w), Look(ng, w))
RECURSIVE Regroup(_)
Regroup(e) == IF e.o \in {"or", "seq"} /\ e.c[1].o = e.o
              THEN Regroup(EX(e.o, <<>>, 0, "", <<e.c[1].c[1], EX(e.o, <<>>, 0, "", <<e.c[1].c[2], e.c[2]>>, <<>>)>>, <<>>))
              ELSE IF e.o \in {"or", "seq"} THEN [e EXCEPT !.c = <<@[1], Regroup(@[2])>>] ELSE e
Covered(v) == UNION {(SpansOf(v)[i].n)..(SpansOf(v)[i].n + SpansOf(v)[i].m - 1) : i \in 1..Len(SpansOf(v))}
LawRegroup == LET h == E0(Regroup(prog.main)) IN
  h.main = g.main \/ (/\ h.main.t = g.main.t
                      /\ SamePos(Parse(g, w), Parse(h, w)) /\ SamePos(Look(g, w), Look(h, w))
                      /\ Covered(Parse(g, w).v) = Covered(Parse(h, w).v))

(* C11: classes are sets                                                   *)
RECURSIVE SetOf(_, _), IsClass(_)
IsClass(e) == e.o \in {"any", "none"} \/ (e.o \in {"not", "or"} /\ \A i \in 1..Len(e.c) : IsClass(e.c[i]))
SetOf(e, U) == CASE e.o = "any" -> Range0(e.s) \cap U
                 [] e.o = "none" -> U \ Range0(e.s)
                 [] e.o = "not" -> U \ SetOf(e.c[1], U)
                 [] e.o = "or" -> SetOf(e.c[1], U) \cup SetOf(e.c[2], U)
LawClass == IsClass(prog.main) =>
  LET r == Parse(g, w) IN
  /\ r.ok <=> w # <<>> /\ w[1] \in SetOf(prog.main, Range0(w))
  /\ r.ok => r.p = 1 /\ r.v = SpanV(0, 1)

(* C12: one composed modifier = one after the other                        *)
RECURSIVE Unchain(_)
Unchain(ms) == IF ms = <<>> THEN <<>>
               ELSE (IF ms[1].o = "multi" THEN Unchain(ms[1].m) ELSE <<ms[1]>>) \o Unchain(Tail(ms))
RECURSIVE ModAll(_, _)
ModAll(x, ms) == IF ms = <<>> THEN x ELSE ModAll(XMod(x, ms[1]), Tail(ms))
LawMod == LET e == prog.main IN
  /\ e.o = "mod" /\ e.m[1].o = "multi" => E0(ModAll(e.c[1], Unchain(e.m))).main = g.main
  /\ e.o = "mod" /\ e.m[1].o \in {"ign", "com", "joi"} => E0(XMod(e, e.m[1])).main = g.main

(* C13: names are transparent; substituting = rewriting the expression     *)
RECURSIVE EraseNames(_)
EraseNames(a) == IF a.t = "nam" THEN EraseNames(a.c[1]) ELSE [a EXCEPT !.c = [i \in 1..Len(a.c) |-> EraseNames(a.c[i])]]
RECURSIVE ByHand(_, _, _), Merged(_)
ByHand(e, f, mdf) ==
  LET cs == [i \in 1..Len(e.c) |-> ByHand(e.c[i], f, mdf)]
      ms == [i \in 1..Len(e.m) |-> [e.m[i] EXCEPT !.c = [j \in 1..Len(e.m[i].c) |-> ByHand(e.m[i].c[j], f, mdf)]]]
      e2 == [e EXCEPT !.c = cs, !.m = ms]
  IN IF IsMod(e, "nam") /\ e.m[1].f = f THEN XMod(e2, mdf) ELSE e2
Merged(e) == e.o \in {"or", "seq"} \* operators that may merge once parts change
LawNames == LET h == [main |-> EraseNames(g.main), rules |-> g.rules] IN Same(Parse(g, w), Parse(h, w)) /\ SamePos(Look(g, w), Look(h, w))
LawSub == LET e == prog.main IN
  /\ IsMod(e, "sub") /\ Len(e.m[1].m) = 1 =>
       LET s == e.m[1].m[1]
           h == E0(ByHand(e.c[1], s.f, s.m[1]))
       IN Valid(h) => SamePos(Parse(g, w), Parse(h, w)) /\ Same(Parse(g, w), Parse(h, w))
  /\ IsMod(e, "sub") /\ Len(e.m[1].m) > 1 =>
       E0(ModAll(e.c[1], [i \in 1..Len(e.m[1].m) |-> MSub(<<e.m[1].m[i]>>)])).main = g.main

(* C14: nothing is called in lookahead; what a parse calls does not        *)
(* depend on what follows the position where it stopped looking            *)
LawCalls == Look(g, w).l = <<>> /\ (~GUses(g, {"map", "fil"}) => Parse(g, w).l = <<>>)

(* C15 *)
LawComplete == g.main.t = "com" =>
  LET x == Ev(g, w, g.main.c[1], 0, "P")  r == Parse(g, w)
      lx == Ev(g, w, g.main.c[1], 0, "L")  lr == Look(g, w)
  IN /\ r.ok <=> (x.ok /\ x.p = Len(w))
     /\ r.ok => Same(r, x)
     /\ ~r.ok => r.p = 0
     /\ lr.ok <=> (lx.ok /\ lx.p = Len(w))

(* C17: renaming the elements of grammar and input changes nothing         *)
Ren(x) == IF x = a_ THEN b_ ELSE IF x = b_ THEN a_ ELSE x
RECURSIVE RenA(_)
RenA(a) == [a EXCEPT !.s = [i \in 1..Len(a.s) |-> Ren(a.s[i])], !.c = [i \in 1..Len(a.c) |-> RenA(a.c[i])]]
LawRename == ~GUses(g, {"map", "fil", "cus"}) =>
  LET h == [main |-> RenA(g.main), rules |-> g.rules]
      v == [i \in 1..Len(w) |-> Ren(w[i])]
  IN Same(Parse(g, w), Parse(h, v)) /\ SamePos(Look(g, w), Look(h, v))

(* C18: a rule behaves as its definition in place (unfolded once)          *)
RECURSIVE Unfold(_)
Unfold(a) == IF a.t = "cus" THEN g.rules[a.n].b ELSE [a EXCEPT !.c = [i \in 1..Len(a.c) |-> Unfold(a.c[i])]]
LawRule ==
  /\ SamePos(Look(g, w), Ev(g, w, Unfold(g.main), 0, "L"))
  /\ ~GUses(g, {"fil", "joi"}) => SamePos(Parse(g, w), Ev(g, w, g.main, 0, "L"))
  /\ g.main.t = "cus" => LET d == Ev(g, w, g.rules[g.main.n].b, 0, "P")  r == Parse(g, w) IN
       SamePos(r, d) /\ (r.ok => r.v = Convert(w, d.v, g.rules[g.main.n].rt)) /\ r.l = d.l

(* C21: the operand's value goes through the function, once                *)
LawMap == g.main.t = "map" =>
  LET x == Ev(g, w, g.main.c[1], 0, "P")  r == Parse(g, w) IN
  /\ SamePos(r, x)
  /\ r.ok => r.v = MapVal(w, g.main.f, g.main.n, x.v)
  /\ r.ok /\ Logged(g.main.f) => Len(r.l) = Len(x.l) + 1
(* C22 *)
LawFilter == g.main.t = "fil" =>
  LET x == Ev(g, w, g.main.c[1], 0, "P")  r == Parse(g, w) IN
  /\ r.ok <=> x.ok /\ FilVal(w, g.main.f, g.main.n, x.v)
  /\ r.ok => Same(r, x)
  /\ ~r.ok => r.p = 0
  /\ SamePos(Look(g, w), Ev(g, w, g.main.c[1], 0, "L"))

Laws == m.log = <<>> /\ md = "P" /\ Len(m.stk) = 1 /\ m.ret.st = "run" /\ m.stk[1].k = 0 /\ m = Start(g, md) =>
  /\ LawNoTrace /\ LawType /\ LawLookUnfiltered /\ LawLook /\ LawCalls
  /\ CASE Prop = "C01" -> LawAccept
       [] Prop = "C02" -> LawNoTrace
       [] Prop = "C05" -> LawSpans
       [] Prop = "C06" -> LawChoice
       [] Prop = "C07" -> LawRep /\ LawAccept
       [] Prop = "C08" -> LawDel /\ LawAccept
       [] Prop = "C09" -> LawJoin
       [] Prop = "C10" -> LawSimp /\ LawRegroup
       [] Prop = "C11" -> LawClass
       [] Prop = "C12" -> LawMod
       [] Prop = "C13" -> LawSub /\ LawNames
       [] Prop = "C15" -> LawComplete
       [] Prop = "C16" -> LawJoin
       [] Prop = "C17" -> LawRename
       [] Prop = "C18" -> LawRule
       [] Prop = "C21" -> LawMap
       [] Prop = "C22" -> LawFilter
       [] OTHER -> TRUE
=============================================================================
