INIT Init
NEXT Next
INVARIANTS Laws
CHECK_DEADLOCK FALSE
