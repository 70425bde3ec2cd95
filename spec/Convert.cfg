SPECIFICATION Spec
VIEW View
INVARIANT Exact
INVARIANT Complete
INVARIANT Same
INVARIANT Stable
PROPERTY ModeKept
PROPERTY Mild
PROPERTY Keeps
CHECK_DEADLOCK FALSE
