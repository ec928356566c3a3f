CONSTANT Emit = FALSE
INIT Init
NEXT Next
INVARIANTS Domain GraphLaws CompLaws
CHECK_DEADLOCK FALSE
