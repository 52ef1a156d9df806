SPECIFICATION Spec
CONSTANTS Depth = 4
Rgb = FALSE
INVARIANTS Independent Maps Laws Emit
CHECK_DEADLOCK FALSE
