SPECIFICATION Spec
CONSTANTS MaxChains = 3 MaxLen = 3 MaxSkip = 4 MaxOps = 5 Bugs = {}
INVARIANTS Agree InStep Laws
CHECK_DEADLOCK FALSE
