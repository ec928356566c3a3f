CONSTANTS N = 5
 H = 1
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT InflectionLaws
INVARIANT ExtremeLaws
INVARIANT BoxLaws
INVARIANT Accepts
CHECK_DEADLOCK FALSE
