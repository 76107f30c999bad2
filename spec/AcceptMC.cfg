SPECIFICATION Spec
CONSTANT Scale = 0
INVARIANTS OneType Agree Say
CHECK_DEADLOCK FALSE
