SPECIFICATION Spec
CONSTANTS N = 2
 M = 3
INVARIANTS Formed Opaque Emit
PROPERTY KeepsAlpha
CHECK_DEADLOCK FALSE
