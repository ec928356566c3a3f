CONSTANTS MaxOps = 3
 MaxCalls = 4
 Emit = FALSE
INIT Init
NEXT Next
INVARIANTS Composes EmptyIsIdentity Inverts PathIndependent RoundTrip TagsInRange SlotTagged
PROPERTIES Stable OnlyTagsMoveTags
CHECK_DEADLOCK FALSE
