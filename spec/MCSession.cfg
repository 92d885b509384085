SPECIFICATION Spec
CONSTANTS Template = 1 MaxSteps = 6 Faults = 1 Hs = {0,1}
INVARIANTS Allowed Known Independent Independent2 Unharmed Lazy
PROPERTIES NoTrace Held
VIEW View
CHECK_DEADLOCK FALSE
