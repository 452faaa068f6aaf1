SPECIFICATION Spec
CONSTANTS
  Length = 6
  Values = {0, 3, 5, 9}
  Contrasts = {3, 6}
  Offsets = {0, 1, 3}
  Fault = "none"
INVARIANTS
  InBounds
  Exact
  Laws
  Monotone
CHECK_DEADLOCK FALSE
