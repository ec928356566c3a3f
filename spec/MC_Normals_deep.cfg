CONSTANTS Depth = 4
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT DerivativeLaws
INVARIANT Invariance
INVARIANT ClosedLaw
INVARIANT UnitLaws
CHECK_DEADLOCK FALSE
