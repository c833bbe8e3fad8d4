INIT Init
NEXT Next
VIEW View
INVARIANTS WordsWellFormed NothingLost SameAsScan EmitAll
CHECK_DEADLOCK FALSE
