SPECIFICATION Spec
CONSTANTS
  Most = 2
  Fault = "none"
  Printing = FALSE
INVARIANTS
  Sound
  Complete
  Exact
CHECK_DEADLOCK FALSE
