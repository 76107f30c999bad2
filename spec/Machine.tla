------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* Parsing as a transition system: one stack machine per parse.            *)
(*                                                                         *)
(* m = [stk, ret, log]:                                                    *)
(*   stk  frames of the active sub-parses; the last one is the top         *)
(*   ret  outcome of the sub-parse that has just ended (ret.st = "ret"),   *)
(*        or nothing (ret.st = "run": the top frame is about to act)       *)
(*   log  the calls of user functions so far, in order                     *)
(*                                                                         *)
(* Every combinator has its own actions, written as functions from a       *)
(* machine state to the next one (the machine is deterministic), named     *)
(* after what happens; the actions are enabled by Can... predicates.       *)
(***************************************************************************)
EXTENDS Tok3n

Frame(a, md, i) == [a |-> a, md |-> md, i |-> i, p |-> i, k |-> 0, vs |-> <<>>, ds |-> <<>>, sp |-> NIL]
Run == [st |-> "run", ok |-> FALSE, p |-> 0, v |-> NIL, from |-> 0]
Ret(ok, p, v, from) == [st |-> "ret", ok |-> ok, p |-> p, v |-> v, from |-> from]

Start(g, md) == [stk |-> <<Frame(g.main, md, 0)>>, ret |-> Run, log |-> <<>>]

Finished(m) == m.stk = <<>>
Top(m) == m.stk[Len(m.stk)]
Running(m) == m.stk # <<>> /\ m.ret.st = "run"
Returning(m) == m.stk # <<>> /\ m.ret.st = "ret"

Push(m, fr, a, md, i) ==   \* replace the top by fr and call a
  [m EXCEPT !.stk = Append(SubSeq(m.stk, 1, Len(m.stk) - 1) \o <<fr>>, Frame(a, md, i)), !.ret = Run]
Pop(m, ok, p, v) ==
  [m EXCEPT !.stk = SubSeq(m.stk, 1, Len(m.stk) - 1),
            !.ret = Ret(ok, p, v, Top(m).i)]
PopFail(m) == Pop(m, FALSE, Top(m).i, NIL)
Emit(m, e) == [m EXCEPT !.log = Append(m.log, e)]

IsLeaf(a) == a.t \in {"any", "none", "all", "anything"}
NoVal(fr) == fr.md = "L" \/ IsVoid(fr.a.ty)

(* --- leaves ---------------------------------------------------------- *)
CanLeafMatch(g, w, m) == Running(m) /\ IsLeaf(Top(m).a) /\ LeafLen(w, Top(m).a, Top(m).i) >= 0
LeafMatch(g, w, m) == LET f == Top(m)  n == LeafLen(w, f.a, f.i)
                      IN Pop(m, TRUE, f.i + n, IF f.md = "P" THEN SpanV(f.i, n) ELSE NIL)
CanLeafFail(g, w, m) == Running(m) /\ IsLeaf(Top(m).a) /\ LeafLen(w, Top(m).a, Top(m).i) < 0
LeafFail(g, w, m) == PopFail(m)
CanEps(g, w, m) == Running(m) /\ Top(m).a.t = "eps"
EpsSucceed(g, w, m) == Pop(m, TRUE, Top(m).i, NIL)

(* --- ordered choice:  k = alternatives tried ------------------------- *)
CanChoTry(g, w, m) == Running(m) /\ Top(m).a.t = "cho"
ChoTry(g, w, m) == LET f == Top(m) IN Push(m, [f EXCEPT !.k = 1], f.a.c[1], f.md, f.i)
CanChoNext(g, w, m) == Returning(m) /\ Top(m).a.t = "cho" /\ ~m.ret.ok /\ Top(m).k < Len(Top(m).a.c)
ChoNext(g, w, m) == LET f == Top(m) IN Push(m, [f EXCEPT !.k = f.k + 1], f.a.c[f.k + 1], f.md, f.i)
CanChoFail(g, w, m) == Returning(m) /\ Top(m).a.t = "cho" /\ ~m.ret.ok /\ Top(m).k = Len(Top(m).a.c)
ChoFail(g, w, m) == PopFail(m)
CanChoTake(g, w, m) == Returning(m) /\ Top(m).a.t = "cho" /\ m.ret.ok
Members(a) == Cardinality(Range0(a.ix) \ {-1})
ChoTake(g, w, m) ==
  LET f == Top(m) IN
  Pop(m, TRUE, m.ret.p,
      IF NoVal(f) THEN NIL
      ELSE IF f.a.ix[f.k] = -1 THEN Default(f.a.ty)
      ELSE IF Members(f.a) > 1 THEN Val("x", f.a.ix[f.k], 0, <<m.ret.v>>)
      ELSE m.ret.v)

(* --- sequence:  k = parts started ------------------------------------ *)
CanSeqBegin(g, w, m) == Running(m) /\ Top(m).a.t = "seq"
SeqBegin(g, w, m) == LET f == Top(m) IN Push(m, [f EXCEPT !.k = 1], f.a.c[1], f.md, f.i)
SeqAcc(f, v) == IF f.md = "L" \/ IsVoid(f.a.c[f.k].ty) THEN f.vs ELSE Append(f.vs, v)
CanSeqNext(g, w, m) == Returning(m) /\ Top(m).a.t = "seq" /\ m.ret.ok /\ Top(m).k < Len(Top(m).a.c)
SeqNext(g, w, m) == LET f == Top(m) IN
  Push(m, [f EXCEPT !.k = f.k + 1, !.vs = SeqAcc(f, m.ret.v), !.p = m.ret.p], f.a.c[f.k + 1], f.md, m.ret.p)
CanSeqDone(g, w, m) == Returning(m) /\ Top(m).a.t = "seq" /\ m.ret.ok /\ Top(m).k = Len(Top(m).a.c)
SeqDone(g, w, m) == LET f == Top(m)  vs == SeqAcc(f, m.ret.v) IN
  Pop(m, TRUE, m.ret.p, IF NoVal(f) THEN NIL ELSE IF Len(vs) = 1 THEN vs[1] ELSE Val("t", 0, 0, vs))
CanSeqFail(g, w, m) == Returning(m) /\ Top(m).a.t = "seq" /\ ~m.ret.ok
SeqFail(g, w, m) == PopFail(m)

(* --- optional --------------------------------------------------------- *)
CanMayTry(g, w, m) == Running(m) /\ Top(m).a.t = "may"
MayTry(g, w, m) == LET f == Top(m) IN Push(m, f, f.a.c[1], f.md, f.i)
CanMaySome(g, w, m) == Returning(m) /\ Top(m).a.t = "may" /\ m.ret.ok
MaySome(g, w, m) == Pop(m, TRUE, m.ret.p, IF NoVal(Top(m)) THEN NIL ELSE Val("o", 0, 0, <<m.ret.v>>))
CanMayNone(g, w, m) == Returning(m) /\ Top(m).a.t = "may" /\ ~m.ret.ok
MayNone(g, w, m) == Pop(m, TRUE, Top(m).i, IF NoVal(Top(m)) THEN NIL ELSE Val("o", 0, 0, <<>>))

(* --- repetition:  k = completed matches, p = end of the last one ------ *)
IsRep(m, ts) == Top(m).a.t \in ts
RepTypes == {"zom", "oom", "exa"}
RepAcc(f, v) == IF NoVal(f) THEN <<>> ELSE Append(f.vs, v)
RepVal(f, vs) == IF NoVal(f) THEN NIL ELSE Val(IF f.a.t = "exa" THEN "r" ELSE "v", 0, 0, vs)
CanRepBegin(g, w, m) == Running(m) /\ IsRep(m, RepTypes)
RepBegin(g, w, m) == LET f == Top(m) IN Push(m, f, f.a.c[1], f.md, f.i)
CanRepMore(g, w, m) == Returning(m) /\ IsRep(m, RepTypes) /\ m.ret.ok
                       /\ (Top(m).a.t = "exa" => Top(m).k + 1 < Top(m).a.n)
RepMore(g, w, m) == LET f == Top(m) IN
  Push(m, [f EXCEPT !.k = f.k + 1, !.vs = RepAcc(f, m.ret.v), !.p = m.ret.p], f.a.c[1], f.md, m.ret.p)
CanExaDone(g, w, m) == Returning(m) /\ IsRep(m, {"exa"}) /\ m.ret.ok /\ Top(m).k + 1 = Top(m).a.n
ExaDone(g, w, m) == LET f == Top(m) IN Pop(m, TRUE, m.ret.p, RepVal(f, RepAcc(f, m.ret.v)))
CanRepStop(g, w, m) == Returning(m) /\ ~m.ret.ok
                       /\ (IsRep(m, {"zom"}) \/ (IsRep(m, {"oom"}) /\ Top(m).k > 0))
RepStop(g, w, m) == LET f == Top(m) IN Pop(m, TRUE, f.p, RepVal(f, f.vs))
CanRepFail(g, w, m) == Returning(m) /\ ~m.ret.ok
                       /\ (IsRep(m, {"exa"}) \/ (IsRep(m, {"oom"}) /\ Top(m).k = 0))
RepFail(g, w, m) == PopFail(m)

(* --- delimited list:  k = 1 waiting for an item, 2 for a separator;   *)
(*     p = end of the last item, sp = separator value held back          *)
IsDel(m) == Top(m).a.t = "del"
CanDelBegin(g, w, m) == Running(m) /\ IsDel(m)
DelBegin(g, w, m) == LET f == Top(m) IN Push(m, [f EXCEPT !.k = 1, !.p = -1], f.a.c[1], f.md, f.i)
CanDelFail(g, w, m) == Returning(m) /\ IsDel(m) /\ ~m.ret.ok /\ Top(m).p = -1
DelFail(g, w, m) == PopFail(m)
DelVal(f) == IF NoVal(f) THEN NIL
             ELSE IF f.a.ty.k = "p" THEN Val("p", 0, 0, <<Val("v", 0, 0, f.vs), Val("v", 0, 0, f.ds)>>)
             ELSE IF IsVoid(f.a.c[1].ty) THEN Val("v", 0, 0, f.ds) ELSE Val("v", 0, 0, f.vs)
Keep(f, c, v) == IF f.md = "L" \/ IsVoid(c.ty) THEN <<>> ELSE <<v>>
CanDelItem(g, w, m) == Returning(m) /\ IsDel(m) /\ m.ret.ok /\ Top(m).k = 1
DelItem(g, w, m) == LET f == Top(m)
                        sep == IF f.p = -1 THEN <<>> ELSE Keep(f, f.a.c[2], f.sp)
                    IN Push(m, [f EXCEPT !.k = 2, !.p = m.ret.p, !.sp = NIL, !.ds = f.ds \o sep,
                                         !.vs = f.vs \o Keep(f, f.a.c[1], m.ret.v)], f.a.c[2], f.md, m.ret.p)
CanDelSep(g, w, m) == Returning(m) /\ IsDel(m) /\ m.ret.ok /\ Top(m).k = 2
DelSep(g, w, m) == LET f == Top(m) IN Push(m, [f EXCEPT !.k = 1, !.sp = m.ret.v], f.a.c[1], f.md, m.ret.p)
CanDelStopNoSep(g, w, m) == Returning(m) /\ IsDel(m) /\ ~m.ret.ok /\ Top(m).k = 2
DelStopNoSep(g, w, m) == Pop(m, TRUE, Top(m).p, DelVal(Top(m)))
CanDelStopNoItem(g, w, m) == Returning(m) /\ IsDel(m) /\ ~m.ret.ok /\ Top(m).k = 1 /\ Top(m).p # -1
DelStopNoItem(g, w, m) == Pop(m, TRUE, Top(m).p, DelVal(Top(m)))

(* --- ignore: the operand is only looked at ---------------------------- *)
CanIgnEnter(g, w, m) == Running(m) /\ Top(m).a.t = "ign"
IgnEnter(g, w, m) == LET f == Top(m) IN Push(m, f, f.a.c[1], "L", f.i)
CanIgnLeave(g, w, m) == Returning(m) /\ Top(m).a.t = "ign"
IgnLeave(g, w, m) == Pop(m, m.ret.ok, m.ret.p, NIL)

(* --- transparent wrappers: enter, and name's exit ----------------------- *)
CanWrapEnter(g, w, m) == Running(m) /\ Top(m).a.t \in {"com", "joi", "map", "fil", "nam"}
WrapEnter(g, w, m) == LET f == Top(m) IN Push(m, f, f.a.c[1], f.md, f.i)
CanWrapFail(g, w, m) == Returning(m) /\ Top(m).a.t \in {"com", "joi", "map", "fil", "nam"} /\ ~m.ret.ok
WrapFail(g, w, m) == PopFail(m)
CanNamLeave(g, w, m) == Returning(m) /\ Top(m).a.t = "nam" /\ m.ret.ok
NamLeave(g, w, m) == Pop(m, TRUE, m.ret.p, m.ret.v)

(* --- complete ----------------------------------------------------------- *)
CanComAll(g, w, m) == Returning(m) /\ Top(m).a.t = "com" /\ m.ret.ok /\ m.ret.p = Len(w)
ComAll(g, w, m) == Pop(m, TRUE, m.ret.p, m.ret.v)
CanComRest(g, w, m) == Returning(m) /\ Top(m).a.t = "com" /\ m.ret.ok /\ m.ret.p < Len(w)
ComRest(g, w, m) == PopFail(m)

(* --- join --------------------------------------------------------------- *)
CanPassLook(g, w, m) == Returning(m) /\ Top(m).a.t \in {"joi", "map", "fil"} /\ m.ret.ok /\ Top(m).md = "L"
PassLook(g, w, m) == Pop(m, TRUE, m.ret.p, NIL)
CanJoin(g, w, m) == Returning(m) /\ Top(m).a.t = "joi" /\ m.ret.ok /\ Top(m).md = "P" /\ JoinOK(m.ret.v)
Join(g, w, m) == Pop(m, TRUE, m.ret.p, JoinV(m.ret.v, m.ret.p))
CanJoinGap(g, w, m) == Returning(m) /\ Top(m).a.t = "joi" /\ m.ret.ok /\ Top(m).md = "P" /\ ~JoinOK(m.ret.v)
JoinGap(g, w, m) == PopFail(m)

(* --- user functions ----------------------------------------------------- *)
CallOf(a, v) == CallEv(a.f, a.n, FArgs(a.f, v))
CanMapCall(g, w, m) == Returning(m) /\ Top(m).a.t = "map" /\ m.ret.ok /\ Top(m).md = "P"
MapCall(g, w, m) == LET a == Top(m).a
                        q == Pop(m, TRUE, m.ret.p, MapVal(w, a.f, a.n, m.ret.v))
                    IN IF Logged(a.f) THEN Emit(q, CallOf(a, m.ret.v)) ELSE q
CanFilAccept(g, w, m) == Returning(m) /\ Top(m).a.t = "fil" /\ m.ret.ok /\ Top(m).md = "P"
                         /\ FilVal(w, Top(m).a.f, Top(m).a.n, m.ret.v)
FilAccept(g, w, m) == Emit(Pop(m, TRUE, m.ret.p, m.ret.v), CallOf(Top(m).a, m.ret.v))
CanFilReject(g, w, m) == Returning(m) /\ Top(m).a.t = "fil" /\ m.ret.ok /\ Top(m).md = "P"
                         /\ ~FilVal(w, Top(m).a.f, Top(m).a.n, m.ret.v)
FilReject(g, w, m) == Emit(PopFail(m), CallOf(Top(m).a, m.ret.v))

(* --- user-defined rules --------------------------------------------------*)
CanRuleEnter(g, w, m) == Running(m) /\ Top(m).a.t = "cus"
RuleEnter(g, w, m) == LET f == Top(m) IN Push(m, f, g.rules[f.a.n].b, f.md, f.i)
CanRuleLeave(g, w, m) == Returning(m) /\ Top(m).a.t = "cus"
RuleLeave(g, w, m) == LET f == Top(m) IN
  Pop(m, m.ret.ok, m.ret.p, IF f.md = "L" \/ ~m.ret.ok THEN NIL ELSE Convert(w, m.ret.v, g.rules[f.a.n].rt))

(* Does the next step call a user function?                                *)
Calls(g, w, m) == (CanMapCall(g, w, m) /\ Logged(Top(m).a.f)) \/ CanFilAccept(g, w, m) \/ CanFilReject(g, w, m)

(* The machine as a function, and runs of it up to the next call.          *)
StepOf(g, w, m) ==
  CASE CanLeafMatch(g, w, m) -> LeafMatch(g, w, m)
    [] CanLeafFail(g, w, m) -> LeafFail(g, w, m)
    [] CanEps(g, w, m) -> EpsSucceed(g, w, m)
    [] CanChoTry(g, w, m) -> ChoTry(g, w, m)
    [] CanChoNext(g, w, m) -> ChoNext(g, w, m)
    [] CanChoFail(g, w, m) -> ChoFail(g, w, m)
    [] CanChoTake(g, w, m) -> ChoTake(g, w, m)
    [] CanSeqBegin(g, w, m) -> SeqBegin(g, w, m)
    [] CanSeqNext(g, w, m) -> SeqNext(g, w, m)
    [] CanSeqDone(g, w, m) -> SeqDone(g, w, m)
    [] CanSeqFail(g, w, m) -> SeqFail(g, w, m)
    [] CanMayTry(g, w, m) -> MayTry(g, w, m)
    [] CanMaySome(g, w, m) -> MaySome(g, w, m)
    [] CanMayNone(g, w, m) -> MayNone(g, w, m)
    [] CanRepBegin(g, w, m) -> RepBegin(g, w, m)
    [] CanRepMore(g, w, m) -> RepMore(g, w, m)
    [] CanExaDone(g, w, m) -> ExaDone(g, w, m)
    [] CanRepStop(g, w, m) -> RepStop(g, w, m)
    [] CanRepFail(g, w, m) -> RepFail(g, w, m)
    [] CanDelBegin(g, w, m) -> DelBegin(g, w, m)
    [] CanDelFail(g, w, m) -> DelFail(g, w, m)
    [] CanDelItem(g, w, m) -> DelItem(g, w, m)
    [] CanDelSep(g, w, m) -> DelSep(g, w, m)
    [] CanDelStopNoSep(g, w, m) -> DelStopNoSep(g, w, m)
    [] CanDelStopNoItem(g, w, m) -> DelStopNoItem(g, w, m)
    [] CanIgnEnter(g, w, m) -> IgnEnter(g, w, m)
    [] CanIgnLeave(g, w, m) -> IgnLeave(g, w, m)
    [] CanWrapEnter(g, w, m) -> WrapEnter(g, w, m)
    [] CanWrapFail(g, w, m) -> WrapFail(g, w, m)
    [] CanNamLeave(g, w, m) -> NamLeave(g, w, m)
    [] CanComAll(g, w, m) -> ComAll(g, w, m)
    [] CanComRest(g, w, m) -> ComRest(g, w, m)
    [] CanPassLook(g, w, m) -> PassLook(g, w, m)
    [] CanJoin(g, w, m) -> Join(g, w, m)
    [] CanJoinGap(g, w, m) -> JoinGap(g, w, m)
    [] CanMapCall(g, w, m) -> MapCall(g, w, m)
    [] CanFilAccept(g, w, m) -> FilAccept(g, w, m)
    [] CanFilReject(g, w, m) -> FilReject(g, w, m)
    [] CanRuleEnter(g, w, m) -> RuleEnter(g, w, m)
    [] CanRuleLeave(g, w, m) -> RuleLeave(g, w, m)
RECURSIVE RunToCall(_, _, _, _)
RunToCall(g, w, m, n) == IF Finished(m) \/ Len(m.log) > n THEN m ELSE RunToCall(g, w, TLCEval(StepOf(g, w, m)), n)
\* what happens until the next user function has been called, or until the end
Burst(g, w, m) == RunToCall(g, w, m, Len(m.log))

-----------------------------------------------------------------------------
(* What holds in every machine state.                                      *)
InBounds(w, m) ==
  /\ \A i \in 1..Len(m.stk) : m.stk[i].i \in 0..Len(w) /\ m.stk[i].p \in -1..Len(w)
  /\ m.ret.p \in 0..Len(w)
StackNested(m) ==  \* a sub-parse starts at or after its parent
  \A i \in 2..Len(m.stk) : m.stk[i-1].i <= m.stk[i].i
FailureRestores(m) == m.ret.st = "ret" /\ ~m.ret.ok => m.ret.p = m.ret.from /\ m.ret.v = NIL
SuccessAdvances(m) == m.ret.st = "ret" /\ m.ret.ok => m.ret.p >= m.ret.from
LookSticks(m) == \A i \in 2..Len(m.stk) : m.stk[i-1].md = "L" => m.stk[i].md = "L"
LookHasNoValue(m) == \A i \in 1..Len(m.stk) : m.stk[i].md = "L" => m.stk[i].vs = <<>> /\ m.stk[i].ds = <<>>
RECURSIVE SpansWithin(_, _, _)
SpansWithin(v, lo, hi) ==
  IF v.k = "s" THEN v.n = -1 \/ (lo <= v.n /\ v.n + v.m <= hi)
  ELSE \A i \in 1..Len(v.e) : SpansWithin(v.e[i], lo, hi)
ValueWithinMatch(m) == m.ret.st = "ret" /\ m.ret.ok => SpansWithin(m.ret.v, m.ret.from, m.ret.p)
=============================================================================
