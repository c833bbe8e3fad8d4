INIT Init
NEXT Next
INVARIANTS OneWord ReadBack Apart EmitAll
CHECK_DEADLOCK FALSE
