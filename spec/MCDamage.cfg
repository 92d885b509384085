SPECIFICATION Spec
CONSTANTS N = 2 Order = "components" Shape = 1 Bug = "none"
INVARIANTS Loses
CHECK_DEADLOCK FALSE
