SPECIFICATION Spec
CONSTANTS MaxBackups = 4 MaxVols = 1 MaxLoss = 1 Cache = FALSE
INVARIANTS TypeOK Lineage Found Superseded NoOrphans EveryFull Once Ordered SigSound SigUnique SigFound
CHECK_DEADLOCK FALSE
