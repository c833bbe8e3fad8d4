SPECIFICATION Spec
INVARIANTS TabKeeps TabForced TabBlank TabAlive EmitAll
CHECK_DEADLOCK FALSE
