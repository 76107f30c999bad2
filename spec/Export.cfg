CONSTANT Scale <- ScaleV
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
