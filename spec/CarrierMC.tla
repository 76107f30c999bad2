------------------------------ MODULE CarrierMC ------------------------------
(* Construction of an input range from a carrier lying in a larger memory:   *)
(* each step reads at most one element; the range found must be the denoted  *)
(* one whatever lies behind, and no step may read outside the carrier.        *)
EXTENDS Carrier, IOUtils, Integers
MaxLen == IF IOEnv.TOK_SCALE = "0" THEN 4 ELSE 6
Elems == {0, 1, 2}
Words(n) == UNION {[1..k -> Elems] : k \in 0..n}

VARIABLES s,      \* the elements of the carrier
          junk,   \* what lies behind
          kind, pc, at, n, reads
vars == <<s, junk, kind, pc, at, n, reads>>

\* a pointer needs a terminator: its carrier ends with one
Own == IF kind = "pointer" THEN s \o <<0>> ELSE s
Mem(i) == (Own \o junk)[i]

Init == /\ s \in Words(MaxLen) /\ junk \in [1..2 -> Elems] /\ kind \in CarrierKinds
        /\ pc = "start" /\ at = 1 /\ n = -1 /\ reads = {}
Whole == /\ pc = "start" /\ kind = "all" /\ n' = Len(s) /\ pc' = "done" /\ UNCHANGED <<s, junk, kind, at, reads>>
Empty == /\ pc = "start" /\ kind = "array" /\ Len(s) = 0 /\ n' = 0 /\ pc' = "done" /\ UNCHANGED <<s, junk, kind, at, reads>>
End   == /\ pc = "start" /\ kind = "array" /\ Len(s) > 0
         /\ reads' = reads \cup {Len(s)}
         /\ n' = IF Mem(Len(s)) = 0 THEN Len(s) - 1 ELSE Len(s)
         /\ pc' = "done" /\ UNCHANGED <<s, junk, kind, at>>
Scan  == /\ pc = "start" /\ kind = "pointer"
         /\ reads' = reads \cup {at}
         /\ IF Mem(at) = 0 THEN n' = at - 1 /\ pc' = "done" /\ at' = at ELSE at' = at + 1 /\ pc' = pc /\ n' = n
         /\ UNCHANGED <<s, junk, kind>>
\* the parse itself: it may look at elements of the range only
Parsing == /\ pc = "done" /\ \E i \in 1..n : i \notin reads /\ reads' = reads \cup {i}
           /\ UNCHANGED <<s, junk, kind, pc, at, n>>
Next == Whole \/ Empty \/ End \/ Scan \/ Parsing
Spec == Init /\ [][Next]_vars

InRange == \A i \in reads : i \in 1..Len(Own)
Found   == pc = "done" => n = Denoted(kind, s)
Law_Prefix  == Denoted(kind, s) \in 0..Len(s)
Law_Literal == Denote("array", Literal(s)) = s
Law_Unterminated == (Len(s) > 0 /\ s[Len(s)] # 0) => Denote("array", s) = s
Law_NoZero  == (\A i \in 1..Len(s) : s[i] # 0) => \A k \in CarrierKinds : Denote(k, s) = s
Law_PointerIgnoresRest == Denote("pointer", s \o <<0>> \o junk) = Denote("pointer", s)
=============================================================================
