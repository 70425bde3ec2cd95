SPECIFICATION Spec
INVARIANT Restored
INVARIANT RanAsExpected
INVARIANT DifferentiatedAsExpected
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
