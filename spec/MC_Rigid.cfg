CONSTANTS N = 1
 M = 1
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT Certificate
INVARIANT Motions
CHECK_DEADLOCK FALSE
