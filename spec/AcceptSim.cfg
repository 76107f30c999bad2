SPECIFICATION Spec
CONSTANT Scale = 0
INVARIANTS OneType Say
CHECK_DEADLOCK FALSE
