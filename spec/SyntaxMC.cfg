SPECIFICATION Spec
VIEW View
INVARIANTS Balanced CanBeEnded Say
CHECK_DEADLOCK FALSE
