SPECIFICATION SpecDrawn
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK HasRemainder EmitAll
