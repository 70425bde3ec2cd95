SPECIFICATION Spec
VIEW View
PROPERTY Correct
INVARIANT Attributes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
