CONSTANTS N = 1
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Accepts
CHECK_DEADLOCK FALSE
