SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NonInterference Abandoned OnCourse AllEnd EmitAll

