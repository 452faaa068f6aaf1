SPECIFICATION Spec
CONSTANTS
  Sizes <- AllSizes
  Values = {0, 3}
  Full = TRUE
  Steps = 3
  Fault = "none"
INVARIANTS
  Algebra
  Everywhere
CHECK_DEADLOCK FALSE
