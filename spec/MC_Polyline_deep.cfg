CONSTANTS MaxCalls = 6
 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS EdgeLaws FlipLaws RotateLaws PartitionLaws
PROPERTIES Independent
CHECK_DEADLOCK FALSE
