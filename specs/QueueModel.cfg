SPECIFICATION Spec
CONSTANTS
  Counts = {0, 1, 2, 3, 4, 254, 255, 256, 300}
  Ids = {0, 1, 2, 3, 253, 254, 255}
  Fault = "none"
  Printing = FALSE
INVARIANTS
  Agrees
  Lives
VIEW View
CHECK_DEADLOCK FALSE
