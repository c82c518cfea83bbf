SPECIFICATION Spec
VIEW View
INVARIANT Transparent
PROPERTY StepProps
CHECK_DEADLOCK FALSE
