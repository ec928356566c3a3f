CONSTANTS R = 2
 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS ProjectLaws CanonicalLaws FlipLaws CrossLaws
CHECK_DEADLOCK FALSE
