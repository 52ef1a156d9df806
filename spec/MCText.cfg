SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS EqInv Class Round PrintC PrintA Names Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
