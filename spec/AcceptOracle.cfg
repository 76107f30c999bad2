CONSTANT Scale = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
