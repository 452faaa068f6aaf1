SPECIFICATION DSpec
INVARIANT Report
CHECK_DEADLOCK FALSE
