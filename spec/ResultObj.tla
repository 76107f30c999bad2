------------------------------ MODULE ResultObj ------------------------------
(* Histories of operations on result objects.  An object is a success flag,  *)
(* a value and a remainder; every operation is the one of an optional value. *)
(* Each behaviour carries its own history with the state that must be        *)
(* observed after every step, and is replayed into the real class.           *)
(*                                                                           *)
(* Value types: i int, b bool, o optional<int>, t copyable and movable and   *)
(* remembering that it was moved from, w constructible from i, t (by copy    *)
(* and by move differently) and u, u movable only, V no value.               *)
EXTENDS Integers, Sequences, TLC, IOUtils, FiniteSets

Depth == atoi(IOEnv.TOK_DEPTH)
Types == CASE IOEnv.TOK_TYPES = "tw" -> {"t", "w"} [] IOEnv.TOK_TYPES = "ibo" -> {"i", "b", "o"} [] IOEnv.TOK_TYPES = "uw" -> {"u", "w"}
           [] IOEnv.TOK_TYPES = "V" -> {"V"} [] IOEnv.TOK_TYPES = "it" -> {"i", "t"} [] OTHER -> {"i", "b", "o", "t", "w", "u", "V"}
NSlots == atoi(IOEnv.TOK_SLOTS)
Emit == IOEnv.TOK_EMIT = "1"
Prepared == IOEnv.TOK_START = "1"   \* start with arbitrary objects in place
Slots == 1..NSlots
Nums == {0, 3}
Rems == {<<1, 2>>, <<8, 0>>}
None == <<-1, 0>>                     \* the remainder of an object never given one
Copyable == {"i", "b", "o", "t", "w", "V"}

\* values: number, engaged (for o), moved from
Val(n, e, d) == [n |-> n, e |-> e, d |-> d]
NoVal == Val(0, FALSE, FALSE)
Make(ty, x) ==
  CASE ty = "b" -> Val(IF x # 0 THEN 1 ELSE 0, TRUE, FALSE)
    [] ty = "o" -> IF x = 0 THEN Val(0, FALSE, FALSE) ELSE Val(x, TRUE, FALSE)
    [] ty = "V" -> NoVal
    [] OTHER -> Val(x, TRUE, FALSE)

CanCopyConv == {<<"i", "b">>, <<"i", "o">>, <<"i", "t">>, <<"i", "w">>, <<"i", "u">>, <<"t", "w">>, <<"o", "b">>, <<"b", "i">>, <<"b", "o">>}
CanMoveConv == CanCopyConv \cup {<<"u", "w">>}
\* the value of the target constructed from the value of the source
Conv(from, to, v, move) ==
  CASE from = "i" /\ to = "b" -> Val(IF v.n # 0 THEN 1 ELSE 0, TRUE, FALSE)
    [] from = "i" /\ to = "w" -> Val(v.n + 400, TRUE, FALSE)
    [] from = "i" -> Val(v.n, TRUE, FALSE)
    [] from = "b" -> Val(v.n, TRUE, FALSE)
    [] from = "o" -> Val(IF v.e THEN 1 ELSE 0, TRUE, FALSE)
    [] from = "t" -> Val(v.n + (IF move THEN 200 ELSE 100), TRUE, v.d)
    [] from = "u" -> Val(v.n + 300, TRUE, v.d)
\* what is left of a value that was moved from
Left(ty, v) == IF ty \in {"t", "w", "u"} THEN [v EXCEPT !.d = TRUE] ELSE v

Obj(ty, has, v, rem) == [ty |-> ty, has |-> has, v |-> IF has THEN v ELSE NoVal, rem |-> rem]
Gone == Obj("-", FALSE, NoVal, None)
Moved(o) == IF o.has THEN [o EXCEPT !.v = Left(o.ty, o.v)] ELSE o

VARIABLES sl, h, k     \* objects, history (text), its length
vars == <<sl, h, k>>

B(x) == IF x THEN "1" ELSE "0"
RenVal(ty, v) ==
  CASE ty = "V" -> ""
    [] ty = "o" -> IF v.e THEN ToString(v.n) ELSE "none"
    [] OTHER -> ToString(v.n) \o (IF v.d THEN "!" ELSE "")
RenObj(o) == IF o.ty = "-" THEN "-" ELSE o.ty \o B(o.has) \o (IF o.has /\ o.ty # "V" THEN "(" \o RenVal(o.ty, o.v) \o ")" ELSE "") \o "@" \o ToString(o.rem[1]) \o "+" \o ToString(o.rem[2])
RECURSIVE Cat(_, _)
Cat(f, i) == IF i > NSlots THEN "" ELSE RenObj(f[i]) \o " " \o Cat(f, i + 1)
S(n) == ToString(n)
Step(op, f, out) == sl' = f /\ k' = k + 1 /\ h' = IF Emit THEN h \o op \o "|" \o Cat(f, 1) \o out \o ";" ELSE ""

Alive(i) == sl[i].ty # "-"
RemArg(r) == S(r[1]) \o " " \o S(r[2])

Default(d) == \E ty \in Types : \E op \in {"D", "Z"} : Step(op \o " " \o S(d) \o " " \o ty, [sl EXCEPT ![d] = Obj(ty, FALSE, NoVal, None)], "")
Failure(d) == \E ty \in Types, r \in Rems : Step("F " \o S(d) \o " " \o ty \o " " \o RemArg(r), [sl EXCEPT ![d] = Obj(ty, FALSE, NoVal, r)], "")
Success(d) == \E ty \in Types, r \in Rems, x \in Nums, op \in {"S", "M"} :
  /\ ty = "u" => op = "M"
  /\ Step(op \o " " \o S(d) \o " " \o ty \o " " \o S(x) \o " " \o RemArg(r), [sl EXCEPT ![d] = Obj(ty, TRUE, Make(ty, x), r)], "")
CopyNew(d, s) == /\ d # s /\ Alive(s) /\ sl[s].ty \in Copyable
                 /\ \E op \in {"C", "N"} : Step(op \o " " \o S(d) \o " " \o S(s), [sl EXCEPT ![d] = sl[s]], "")
MoveNew(d, s) == /\ d # s /\ Alive(s)
                 /\ Step("X " \o S(d) \o " " \o S(s), [sl EXCEPT ![d] = sl[s], ![s] = Moved(sl[s])], "")
CopyAsg(d, s) == /\ Alive(s) /\ Alive(d) /\ sl[s].ty = sl[d].ty /\ sl[s].ty \in Copyable
                 /\ Step("A " \o S(d) \o " " \o S(s), [sl EXCEPT ![d] = sl[s]], "")
MoveAsg(d, s) == /\ d # s /\ Alive(s) /\ Alive(d) /\ sl[s].ty = sl[d].ty
                 /\ Step("B " \o S(d) \o " " \o S(s), [sl EXCEPT ![d] = sl[s], ![s] = Moved(sl[s])], "")
Converted(o, ty, move) == Obj(ty, o.has, Conv(o.ty, ty, o.v, move), o.rem)
ConvNew(d, s) == /\ d # s /\ Alive(s)
                 /\ \E ty \in Types :
                      \/ /\ <<sl[s].ty, ty>> \in CanCopyConv
                         /\ Step("K " \o S(d) \o " " \o ty \o " " \o S(s), [sl EXCEPT ![d] = Converted(sl[s], ty, FALSE)], "")
                      \/ /\ <<sl[s].ty, ty>> \in CanMoveConv
                         /\ Step("L " \o S(d) \o " " \o ty \o " " \o S(s), [sl EXCEPT ![d] = Converted(sl[s], ty, TRUE), ![s] = Moved(sl[s])], "")
ConvAsg(d, s) == /\ d # s /\ Alive(s) /\ Alive(d)
                 /\ \/ /\ <<sl[s].ty, sl[d].ty>> \in CanCopyConv
                       /\ Step("k " \o S(d) \o " " \o S(s), [sl EXCEPT ![d] = Converted(sl[s], sl[d].ty, FALSE)], "")
                    \/ /\ <<sl[s].ty, sl[d].ty>> \in CanMoveConv
                       /\ Step("l " \o S(d) \o " " \o S(s), [sl EXCEPT ![d] = Converted(sl[s], sl[d].ty, TRUE), ![s] = Moved(sl[s])], "")
Readable(s) == Alive(s) /\ sl[s].ty # "V"
Write(s) == /\ Readable(s) /\ sl[s].has
            /\ \E x \in Nums : Step("W " \o S(s) \o " " \o S(x), [sl EXCEPT ![s].v = Make(sl[s].ty, x)], "")
Take(s) == /\ Readable(s) /\ sl[s].has
           /\ \E op \in {"T", "U"} : Step(op \o " " \o S(s), [sl EXCEPT ![s] = Moved(sl[s])], "y=" \o RenVal(sl[s].ty, sl[s].v))
TakeConst(s) == /\ Readable(s) /\ sl[s].has /\ sl[s].ty \in Copyable
                /\ \E op \in {"t", "u"} : Step(op \o " " \o S(s), sl, "y=" \o RenVal(sl[s].ty, sl[s].v))
Access(s) == /\ Readable(s) /\ Step("V " \o S(s), sl, IF sl[s].has THEN "y=" \o RenVal(sl[s].ty, sl[s].v) ELSE "throws")
Swap(d, s) == /\ d < s /\ Alive(s) /\ Alive(d) /\ sl[s].ty = sl[d].ty
              /\ Step("P " \o S(d) \o " " \o S(s), [sl EXCEPT ![d] = sl[s], ![s] = sl[d]], "")
Destroy(d) == Alive(d) /\ Step("E " \o S(d), [sl EXCEPT ![d] = Gone], "")

\* objects to start with and the operation that makes them
RemOf(i) == IF i = 1 THEN <<1, 2>> ELSE <<8, 0>>
Starts(i) == {Gone} \cup {Obj(ty, FALSE, NoVal, RemOf(i)) : ty \in Types} \cup {Obj(ty, TRUE, Make(ty, x), RemOf(i)) : ty \in Types, x \in Nums}
Making(i, o) == CASE o.ty = "-" -> "E " \o S(i)
                  [] o.ty # "-" /\ ~o.has -> "F " \o S(i) \o " " \o o.ty \o " " \o RemArg(o.rem)
                  [] OTHER -> "M " \o S(i) \o " " \o o.ty \o " " \o S(o.v.n) \o " " \o RemArg(o.rem)
RECURSIVE MakeAll(_, _)
MakeAll(f, i) == IF i > NSlots THEN "" ELSE Making(i, f[i]) \o "|*;" \o MakeAll(f, i + 1)
Init == /\ k = 0
        /\ IF Prepared THEN sl \in {f \in [Slots -> UNION {Starts(i) : i \in Slots}] : \A i \in Slots : f[i] \in Starts(i)} /\ h = IF Emit THEN MakeAll(sl, 1) ELSE ""
           ELSE sl = [i \in Slots |-> Gone] /\ h = ""
Next == /\ k < Depth
        /\ \/ ~Prepared /\ \E d \in Slots : Default(d) \/ Failure(d) \/ Success(d)
           \/ \E d \in Slots : Write(d) \/ Take(d) \/ TakeConst(d) \/ Access(d) \/ Destroy(d)
           \/ \E d, s \in Slots : CopyNew(d, s) \/ MoveNew(d, s) \/ CopyAsg(d, s) \/ MoveAsg(d, s) \/ ConvNew(d, s) \/ ConvAsg(d, s) \/ Swap(d, s)
\* long random histories: one operation is drawn per step (only for simulation)
Pick(X) == {RandomElement(X)}
Draw(c, d, s) ==
  CASE c = 1 -> Default(d) [] c = 2 -> Failure(d) [] c = 3 -> Write(d) [] c = 4 -> Take(d) [] c = 5 -> TakeConst(d) [] c = 6 -> Access(d)
    [] c = 7 -> CopyNew(d, s) [] c = 8 -> MoveNew(d, s) [] c = 9 -> CopyAsg(d, s) [] c = 10 -> MoveAsg(d, s) [] c \in {11, 12} -> ConvNew(d, s)
    [] c \in {13, 14} -> ConvAsg(d, s) [] c = 15 -> Swap(d, s) [] c = 16 -> Destroy(d)
NextDrawn == /\ k < Depth
             /\ \E c \in Pick(1..16), d \in Pick(Slots), s \in Pick(Slots) :
                  IF ENABLED Draw(c, d, s) THEN Draw(c, d, s)
                  ELSE \E ty \in Pick(Types), r \in Pick(Rems), x \in Pick(Nums) :
                         Step("M " \o S(d) \o " " \o ty \o " " \o S(x) \o " " \o RemArg(r), [sl EXCEPT ![d] = Obj(ty, TRUE, Make(ty, x), r)], "")
SpecDrawn == Init /\ [][NextDrawn]_vars

Spec == Init /\ [][Next]_vars

\* every complete history is printed once, to be replayed
EmitAll == (Emit /\ k = Depth) => PrintT("H:" \o h)

TypeOK == \A i \in Slots : /\ sl[i].ty \in Types \cup {"-"} /\ sl[i].has \in BOOLEAN /\ sl[i].rem \in Rems \cup {None}
                           /\ (~sl[i].has => sl[i].v = NoVal) /\ (sl[i].ty = "-" => ~sl[i].has)
\* a success has a remainder it was given
HasRemainder == \A i \in Slots : sl[i].has => sl[i].rem # None
\* success never arises from anything but a success: without new successes the number of ... objects may only be copied
Origin == [][ \A i \in Slots : (sl'[i].has /\ sl'[i] # sl[i]) =>
                \/ \E j \in Slots : sl[j].has /\ sl[j].rem = sl'[i].rem
                \/ \E ty \in Types, r \in Rems, x \in Nums : sl'[i] = Obj(ty, TRUE, Make(ty, x), r) ]_vars
\* flag and remainder of an object change only when it is the target of an operation; being moved from or read keeps both
SourceKept == [][ Cardinality({i \in Slots : sl'[i].has # sl[i].has \/ sl'[i].rem # sl[i].rem}) <= 2 ]_vars
=============================================================================
