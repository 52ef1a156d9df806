SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS Order Twice InRange Same Black Grey Warmer Emit
CHECK_DEADLOCK FALSE
