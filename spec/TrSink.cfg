SPECIFICATION TrSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
