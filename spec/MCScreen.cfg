SPECIFICATION Spec
INVARIANTS LineOk DiscOk ShutOk NumOk
CHECK_DEADLOCK FALSE
