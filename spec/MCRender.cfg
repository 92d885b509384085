SPECIFICATION Spec
CONSTANTS MaxRows = 2 MaxWidth = 3 Bug = "none"
INVARIANTS Aligned Tight Readable High
CHECK_DEADLOCK FALSE
