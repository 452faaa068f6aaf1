SPECIFICATION Spec
CONSTANTS
  Fault = "none"
  Printing = FALSE
INVARIANTS
  Right
  Clean
  Print1
CHECK_DEADLOCK FALSE
