CONSTANTS Depth = 2
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT DerivativeLaws
INVARIANT Invariance
INVARIANT ClosedLaw
INVARIANT UnitLaws
CHECK_DEADLOCK FALSE
