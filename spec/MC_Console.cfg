CONSTANTS MaxLines = 5
 Emit = FALSE
SPECIFICATION Spec
INVARIANT Safe
PROPERTY Live
CHECK_DEADLOCK FALSE
