CONSTANTS Numbers = {7, 10, 15}
 TheUnits = {"cm", "m", "in", "kg", "rad", "<none>"}
 Emit = TRUE
INIT Init
NEXT Next
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
