SPECIFICATION Spec
INVARIANTS AsNew OneProgram NoneOfABad Emit
PROPERTY Apart
CHECK_DEADLOCK FALSE
