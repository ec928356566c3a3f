CONSTANTS Numbers = {3, 7, 10, 11, 12, 15, 35, 210}
 TheUnits = {"cm", "m", "in", "kg", "ft", "lbs", "g", "deg", "rad", "min", "hr", "day", "hours_per_week", "<none>"}
 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS Laws Accepts
CHECK_DEADLOCK FALSE
