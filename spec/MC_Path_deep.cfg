CONSTANT N = 6
SPECIFICATION Spec
INVARIANT Right
PROPERTY Terminates
CHECK_DEADLOCK FALSE
