SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK HasRemainder EmitAll
PROPERTIES Origin SourceKept
