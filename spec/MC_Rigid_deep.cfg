CONSTANTS N = 1
 M = 2
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT Certificate
INVARIANT Motions
CHECK_DEADLOCK FALSE
