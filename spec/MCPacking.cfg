SPECIFICATION Spec
INVARIANTS TypeOK Found Outside Ordered
CONSTANTS
 Trees = 1
 MaxItems = 3
 MaxBlocks = 2
 MaxVols = 3
CHECK_DEADLOCK FALSE
