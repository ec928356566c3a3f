CONSTANTS N = 3
 H = 1
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT PDLaws
INVARIANT BlockLaws
CHECK_DEADLOCK FALSE
