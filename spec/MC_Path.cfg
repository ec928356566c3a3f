CONSTANT N = 5
SPECIFICATION Spec
INVARIANT Right
PROPERTY Terminates
CHECK_DEADLOCK FALSE
