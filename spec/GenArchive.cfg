SPECIFICATION Spec
CONSTANTS MaxBackups = 6 MaxVols = 3 MaxLoss = 2 Cache = FALSE Every = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
