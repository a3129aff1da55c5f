SPECIFICATION DSpec
INVARIANT Normal
CHECK_DEADLOCK FALSE
