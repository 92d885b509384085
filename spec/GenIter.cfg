SPECIFICATION Spec
CONSTANTS Size = 2 Depth = 2
INVARIANTS Inside Emit
CHECK_DEADLOCK FALSE
