SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS Member Again Empty Layout Own Allowed Emit
CHECK_DEADLOCK FALSE
