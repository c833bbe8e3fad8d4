SPECIFICATION Spec
INVARIANTS Coherent Bounded SayTable SayHistory
CHECK_DEADLOCK FALSE
