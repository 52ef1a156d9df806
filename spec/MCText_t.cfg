SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS EqInv Class Round PrintC PrintA Names Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
