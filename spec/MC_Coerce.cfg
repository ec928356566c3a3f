CONSTANTS Sizes = {0, 1, 2, 3}
 MaxDim = 2
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
