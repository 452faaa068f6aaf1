SPECIFICATION Spec
CONSTANTS
  Fault = "none"
  Scenarios <- AllScenarios
INVARIANT Refines
CHECK_DEADLOCK TRUE
