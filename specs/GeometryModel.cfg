SPECIFICATION Spec
CONSTANTS
  Coordinates <- SomeCoordinates
  Coefficients <- SomeCoefficients
  Fault = "none"
INVARIANTS
  Solved
  Laws
CHECK_DEADLOCK FALSE
