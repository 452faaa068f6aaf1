SPECIFICATION Spec
CONSTANTS
  N = 2
  Threads = {1, 2}
  Contexts = 4
  Fault = "none"
  Printing = FALSE
INVARIANTS
  Agrees
  Fits
VIEW View
CHECK_DEADLOCK FALSE
