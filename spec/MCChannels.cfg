SPECIFICATION Spec
CONSTANTS Depth = 3
Rgb = FALSE
INVARIANTS Independent Maps Laws Emit
CHECK_DEADLOCK FALSE
