SPECIFICATION Spec
VIEW View
INVARIANT Conforms
ALIAS Short
CHECK_DEADLOCK FALSE
CONSTANT SysTab <- WideTab
