SPECIFICATION Spec
INVARIANT Exact
INVARIANT Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
