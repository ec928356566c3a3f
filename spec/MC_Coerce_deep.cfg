CONSTANTS Sizes = {0, 1, 2}
 MaxDim = 3
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
