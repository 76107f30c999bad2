--------------------------------- MODULE Par ---------------------------------
(* Several parses at once: on several threads, and nested inside the user    *)
(* functions of other parses.  A thread gives way inside every call of a     *)
(* user function; what it does until then is one step.  A user function may   *)
(* throw, which abandons the parse it was called in.  Whatever the schedule, *)
(* every other parse ends with the outcome it has alone.                     *)
(* Complete schedules are printed and replayed with real threads.            *)
EXTENDS Machine, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TOK_IN)
GrammarOf(c) == Grammar(Norm(c.main), [i \in 1..Len(c.rules) |-> [b |-> Norm(c.rules[i].e), rt |-> c.rules[i].rt]])
Emitting == IOEnv.TOK_EMIT = "1"

VARIABLES sc,     \* the scenario: grammars, tasks <<grammar, input, mode>>, threads and nested tasks
          th,     \* per thread: [begun, stk: active parses, the innermost last]
          used,   \* nested tasks begun
          out,    \* outcome of every finished task
          h       \* the schedule so far
vars == <<sc, th, used, out, h>>

G(t) == sc.gs[sc.tasks[t].g]
W(t) == sc.tasks[t].w
Threads == 1..Len(sc.threads)
Tasks == 1..Len(sc.tasks)
Pending == [ok |-> FALSE, p |-> -1, v |-> NIL, l |-> <<>>]
Outcome(m) == [ok |-> m.ret.ok, p |-> m.ret.p, v |-> m.ret.v, l |-> m.log]
\* a parse left by an exception: the calls it made before are all there is
Thrown(m) == [ok |-> FALSE, p |-> -2, v |-> NIL, l |-> m.log]
Alone(t) == sc.al[t]
AloneOf(g, t) == LET o == Ev(g, t.w, g.main, 0, t.md) IN [ok |-> o.ok, p |-> o.p, v |-> o.v, l |-> o.l]

Init == /\ \E c \in {Cases[i] : i \in 1..Len(Cases)} :
             LET gs == TLCEval([i \in 1..Len(c.progs) |-> TLCEval(GrammarOf(c.progs[i]))]) IN
             sc = [id |-> c.id, gs |-> gs, tasks |-> c.tasks, threads |-> c.threads, nested |-> c.nested, throws |-> c.throws, al |-> TLCEval([t \in 1..Len(c.tasks) |-> TLCEval(AloneOf(gs[c.tasks[t].g], c.tasks[t]))])]
        /\ th = [t \in 1..Len(sc.threads) |-> [begun |-> FALSE, stk |-> <<>>]]
        /\ used = {} /\ out = [t \in 1..Len(sc.tasks) |-> Pending] /\ h = ""

Say(x) == h' = IF Emitting THEN h \o x \o " " ELSE ""
\* The innermost parse of thread i, running task t from machine state m, goes on until its next call or its end.
\* (A call that is the very last step of a parse is still a place to give way.)
Continue(i, t, m, below) ==
  LET q == Burst(G(t), W(t), m) IN
  IF Finished(q) /\ q.log = m.log THEN th' = [th EXCEPT ![i] = [begun |-> TRUE, stk |-> below]] /\ out' = [out EXCEPT ![t] = Outcome(q)]
  ELSE th' = [th EXCEPT ![i] = [begun |-> TRUE, stk |-> Append(below, [t |-> t, m |-> q])]] /\ out' = out

Begin(i) == /\ ~th[i].begun
            /\ Continue(i, sc.threads[i], Start(G(sc.threads[i]), sc.tasks[sc.threads[i]].md), <<>>)
            /\ Say(ToString(i)) /\ UNCHANGED <<sc, used>>
Resume(i) == /\ th[i].stk # <<>>
             /\ LET top == th[i].stk[Len(th[i].stk)] IN Continue(i, top.t, top.m, SubSeq(th[i].stk, 1, Len(th[i].stk) - 1))
             /\ Say(ToString(i)) /\ UNCHANGED <<sc, used>>
\* the call the innermost parse of thread i is in throws; whoever started that parse catches it
Throws == {t \in 1..Len(sc.tasks) : out[t].p = -2}
Leave(i) == LET n == Len(th[i].stk) IN
            /\ th' = [th EXCEPT ![i].stk = SubSeq(@, 1, n - 1)]
            /\ out' = [out EXCEPT ![th[i].stk[n].t] = Thrown(th[i].stk[n].m)]
            /\ Say(ToString(i) \o "!") /\ UNCHANGED <<sc, used>>
Throw(i) == th[i].stk # <<>> /\ Cardinality(Throws) < sc.throws /\ Leave(i)
Nest(i) == /\ th[i].stk # <<>> /\ Len(th[i].stk) < 3
           /\ \E k \in {sc.nested[j] : j \in 1..Len(sc.nested)} \ used :
                /\ used' = used \cup {k}
                /\ Continue(i, k, Start(G(k), sc.tasks[k].md), th[i].stk)
                /\ Say(ToString(i) \o ">" \o ToString(k))
           /\ UNCHANGED sc
Over == \A i \in Threads : th[i].begun /\ th[i].stk = <<>>
Stop == Over /\ UNCHANGED vars
Step == \E i \in Threads : Begin(i) \/ Resume(i) \/ Throw(i) \/ Nest(i)
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the same without stuttering at the end, one drawn successor at a time: for simulation
Moves == {<<i, 0>> : i \in {j \in Threads : ~th[j].begun \/ th[j].stk # <<>>}}
           \cup {c \in Threads \X ({sc.nested[j] : j \in 1..Len(sc.nested)} \ used) : th[c[1]].stk # <<>> /\ Len(th[c[1]].stk) < 3}
           \cup (IF Cardinality(Throws) >= sc.throws THEN {} ELSE {<<i, -1>> : i \in {j \in Threads : th[j].stk # <<>>}})
Drawn == /\ Moves # {}
         /\ \E c \in {RandomElement(Moves)} :
              IF c[2] = 0 THEN (IF th[c[1]].begun THEN Resume(c[1]) ELSE Begin(c[1]))
              ELSE IF c[2] = -1 THEN Leave(c[1])
              ELSE /\ used' = used \cup {c[2]}
                   /\ Continue(c[1], c[2], Start(G(c[2]), sc.tasks[c[2]].md), th[c[1]].stk)
                   /\ Say(ToString(c[1]) \o ">" \o ToString(c[2]))
                   /\ UNCHANGED sc
SpecDrawn == Init /\ [][Drawn]_vars

\* ---- what must hold under every schedule
NonInterference == \A t \in Tasks : out[t].p \notin {-1, -2} => out[t] = Alone(t)
\* an abandoned parse had gone the way it goes alone, and was inside its last call
Abandoned == \A t \in Throws : out[t].l # <<>> /\ IsPrefix(out[t].l, Alone(t).l)
\* every active parse is a prefix of its run alone
OnCourse == \A i \in Threads : \A j \in 1..Len(th[i].stk) : IsPrefix(th[i].stk[j].m.log, Alone(th[i].stk[j].t).l)
AllEnd == Over => \A t \in Tasks : (t \in used \/ \E i \in Threads : sc.threads[i] = t) => out[t].p # -1
Finishes == <>Over
EmitAll == (Emitting /\ Over) => PrintT("P:" \o ToString(sc.id) \o "|" \o h)
=============================================================================
