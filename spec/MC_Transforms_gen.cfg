CONSTANTS MaxOps = 3
 MaxCalls = 3
 Emit = TRUE
INIT Init
NEXT Next
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
