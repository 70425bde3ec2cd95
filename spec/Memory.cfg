SPECIFICATION Spec
VIEW View
INVARIANT Kept
INVARIANT Stays
INVARIANT Fresh
PROPERTY Frugal
CHECK_DEADLOCK FALSE
