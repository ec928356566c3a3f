CONSTANTS MaxCalls = 5
 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS EdgeLaws FlipLaws RotateLaws PartitionLaws
PROPERTIES Independent
CHECK_DEADLOCK FALSE
