SPECIFICATION GSpec
CONSTANTS Size = 4 Pool = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
