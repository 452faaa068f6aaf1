SPECIFICATION Spec
CONSTANTS
  Sizes = {2, 3, 4, 5, 6, 7}
  Reaches = {1, 2}
  Fractions <- SomeFractions
  Fault = "none"
INVARIANTS
  IsKernel
  Normalised
  Symmetric
  Separable
  Peak
CHECK_DEADLOCK FALSE
