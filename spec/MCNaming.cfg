SPECIFICATION Spec
CONSTANT Wide = FALSE
INVARIANTS RoundTrip Robust Strict
CHECK_DEADLOCK FALSE
