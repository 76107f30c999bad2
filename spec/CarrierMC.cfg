SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InRange Found Law_Prefix Law_Literal Law_Unterminated Law_NoZero Law_PointerIgnoresRest
