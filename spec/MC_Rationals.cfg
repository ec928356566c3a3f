CONSTANT N = 7
INIT Init
NEXT Next
INVARIANT Agree
INVARIANT Field
CHECK_DEADLOCK FALSE
