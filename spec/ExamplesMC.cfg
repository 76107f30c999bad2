SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS PegAgrees OneReading CalcMember NoExponentNoDeviation
