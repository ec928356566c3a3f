CONSTANTS Shapes <- SomeShapes
 Depth = 2
 Emit = TRUE
INIT Init
NEXT Next
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
