SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS Order Twice InRange Same Black Grey Warmer Emit
CHECK_DEADLOCK FALSE
