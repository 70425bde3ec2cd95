SPECIFICATION Spec
INVARIANT Once
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
