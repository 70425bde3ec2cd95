SPECIFICATION Spec
INVARIANT Kept
INVARIANT Stays
INVARIANT Fresh
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
