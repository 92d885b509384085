SPECIFICATION Spec
INVARIANTS Anchor Successor Inverse Stamped Rejected Zoned JustNow
CONSTANTS
 Lo = 720000
 Hi = 740000
CHECK_DEADLOCK FALSE
