SPECIFICATION Spec
INVARIANT Faithful
INVARIANT CanLoad
INVARIANT NothingInvented
INVARIANT Emit
CHECK_DEADLOCK FALSE
