SPECIFICATION Spec
INVARIANT Lifecycle
INVARIANT ExitsMatch
INVARIANT FilesFirst
INVARIANT CarriedOver
INVARIANT OnlyTopWorks
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
CONSTRAINT Sane
