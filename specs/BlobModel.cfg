SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  Fault = "none"
INVARIANTS
  Sound
  Exact
  Laws
CHECK_DEADLOCK FALSE
