SPECIFICATION Spec
VIEW View
PROPERTY Correct
INVARIANT Forgets
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
