SPECIFICATION Spec
CONSTANTS Size = 4 Pool = 1
INVARIANTS Correct Confluent
CHECK_DEADLOCK FALSE
