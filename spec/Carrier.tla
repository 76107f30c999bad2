------------------------------- MODULE Carrier -------------------------------
(* What the different carriers of elements denote, and what a parse of a    *)
(* carrier may look at.  Memory is the sequence of elements a carrier        *)
(* occupies followed by whatever happens to lie behind it.                   *)
EXTENDS Tok3n

(* "all": vector, string, view, span, std::array, mutable C array, any C     *)
(* array of non-characters: every element.                                   *)
(* "array": const C array of characters: all but one trailing terminator.    *)
(* "pointer": up to the first terminator.                                    *)
FirstZero(s) == IF \E i \in 1..Len(s) : s[i] = 0 THEN CHOOSE i \in 1..Len(s) : s[i] = 0 /\ \A j \in 1..(i - 1) : s[j] # 0 ELSE Len(s) + 1
Denoted(kind, s) ==
  CASE kind = "all" -> Len(s)
    [] kind = "array" -> IF Len(s) > 0 /\ s[Len(s)] = 0 THEN Len(s) - 1 ELSE Len(s)
    [] kind = "pointer" -> FirstZero(s) - 1
Denote(kind, s) == SubSeq(s, 1, Denoted(kind, s))
CarrierKinds == {"all", "array", "pointer"}

(* a literal spelled with the elements s is the array s followed by the terminator *)
Literal(s) == s \o <<0>>
=============================================================================
