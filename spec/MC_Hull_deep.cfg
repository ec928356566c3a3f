CONSTANTS K = 5
 N = 2
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Accepts
CHECK_DEADLOCK FALSE
