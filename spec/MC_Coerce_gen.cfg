CONSTANTS Sizes = {0, 1, 2, 3}
 MaxDim = 2
 Emit = TRUE
INIT Init
NEXT Next
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
