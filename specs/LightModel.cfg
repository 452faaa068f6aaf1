SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2, 3, 100, 127, 200, 254, 255}
  Widths = {1, 2, 3}
  Fault = "none"
INVARIANT Right
CHECK_DEADLOCK FALSE
