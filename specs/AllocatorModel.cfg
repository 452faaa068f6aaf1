SPECIFICATION Spec
CONSTANTS
  Printing = FALSE
  Fault = "none"
  Sizes = {0, 1, 4, 5, 6, 7, 8, 11}
  Lengths = {1, 2, 3, 4, 5, 8, 12}
  MaxBlocks = 6
VIEW View
INVARIANT Good
CHECK_DEADLOCK FALSE
