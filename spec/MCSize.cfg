SPECIFICATION Spec
CONSTANTS MaxSize = 60 MaxBlock = 10
INVARIANTS Encloses Tight Judged Arith
CHECK_DEADLOCK FALSE
