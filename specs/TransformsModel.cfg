SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 3}
  Sizes <- AllSizes
  Places = {0, 1, 3}
  Points = 4
  Tolerance = 1
  Fault = "none"
INVARIANTS
  Transformed
  Inverts
  Energy
  Lines
CHECK_DEADLOCK FALSE
