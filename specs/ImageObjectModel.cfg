SPECIFICATION Spec
CONSTANT Printing = FALSE
VIEW View
INVARIANT Good
CHECK_DEADLOCK FALSE
