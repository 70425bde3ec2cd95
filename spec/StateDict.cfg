SPECIFICATION Spec
VIEW View
INVARIANT Once
PROPERTY Restores
PROPERTY Undisturbed
CHECK_DEADLOCK FALSE
