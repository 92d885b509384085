SPECIFICATION Spec
INVARIANTS RoundTrip Cuts Shape
CONSTANTS
 MaxVols = 2
 PathLen = 2
 Bytes = 6
 Cutting = FALSE
CHECK_DEADLOCK FALSE
