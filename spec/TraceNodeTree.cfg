SPECIFICATION Spec
INVARIANT Inv
POSTCONDITION Accepted
VIEW View
CHECK_DEADLOCK FALSE
