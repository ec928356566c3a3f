CONSTANTS Numbers = {7, 10, 12, 15, 210}
 TheUnits = {"cm", "m", "in", "kg", "hr", "day", "<none>"}
 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS Laws Accepts
CHECK_DEADLOCK FALSE
