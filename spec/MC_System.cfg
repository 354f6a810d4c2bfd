SPECIFICATION Spec
INVARIANT Inv
INVARIANT Session
PROPERTY Forever
PROPERTY OneName
CHECK_DEADLOCK FALSE
