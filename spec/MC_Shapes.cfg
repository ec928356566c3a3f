CONSTANTS K = 1
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT BoxLaws
INVARIANT PrismLaws
INVARIANT Accepts
CHECK_DEADLOCK FALSE
