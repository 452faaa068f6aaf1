SPECIFICATION Spec
INVARIANT RegistryOk
INVARIANT CallsOk
INVARIANT Report
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Fault = "none"
  BuiltIn = TRUE
  Printing = FALSE
