CONSTANTS N = 1
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT VectorLaws
INVARIANT QuatLaws
INVARIANT UpLook
CHECK_DEADLOCK FALSE
