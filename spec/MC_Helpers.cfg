CONSTANTS Shapes <- SomeShapes
 Depth = 3
 Emit = FALSE
INIT Init
NEXT Next
INVARIANT ViewLaws
INVARIANT Through
INVARIANT RoundLaws
INVARIANT UlpLaws
CHECK_DEADLOCK FALSE
