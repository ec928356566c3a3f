CONSTANTS N = 3
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT PlaneLaws
INVARIANT SpaceLaws
INVARIANT TriangleLaws
INVARIANT Accepts
CHECK_DEADLOCK FALSE
