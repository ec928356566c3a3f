CONSTANTS MaxLen = 4

 Levels = {9, 10, 11, 13}
 Emit = TRUE
INIT Init
NEXT Next
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
