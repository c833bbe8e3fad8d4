INIT Init
NEXT Next
INVARIANTS Intact EmitAll
CHECK_DEADLOCK FALSE
