SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS Member Again Empty Layout Own Allowed Emit
CHECK_DEADLOCK FALSE
