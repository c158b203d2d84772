INIT Init
NEXT Next
INVARIANT Functional
CHECK_DEADLOCK FALSE
