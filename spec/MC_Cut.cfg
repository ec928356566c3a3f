CONSTANTS MaxLen = 6

 Levels = {8, 9, 10, 11, 13}
 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS CrossLaws CutLaws TouchLaws
CHECK_DEADLOCK FALSE
