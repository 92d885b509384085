SPECIFICATION Spec
CONSTANTS Template = 1 MaxSteps = 6 Faults = 1 Hs = {0,1} Every = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
