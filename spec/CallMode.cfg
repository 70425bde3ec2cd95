SPECIFICATION Spec
VIEW View
INVARIANT Restored
INVARIANT RanAsExpected
INVARIANT ReturnedAsExpected
INVARIANT DifferentiatedAsExpected
INVARIANT OnceEach
INVARIANT Prefix
INVARIANT Failing
PROPERTY CallsEnd
CHECK_DEADLOCK FALSE
