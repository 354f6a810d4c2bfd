SPECIFICATION Spec
INVARIANT Laws
INVARIANT Session
CHECK_DEADLOCK FALSE
