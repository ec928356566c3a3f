CONSTANTS MaxLines = 4
 Emit = TRUE
INIT Init
NEXT Next
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
