SPECIFICATION Spec
CONSTANTS N = 4 Order = "components" Shape = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
