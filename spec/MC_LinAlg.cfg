CONSTANTS D = 2
 N = 3
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Accepts
CHECK_DEADLOCK FALSE
