SPECIFICATION TrSpec
INVARIANT TrInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
