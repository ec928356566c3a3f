CONSTANTS N = 5
 H = 1
 Emit = TRUE
INIT Init
NEXT Next
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
