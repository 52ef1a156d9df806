SPECIFICATION Spec
CONSTANTS Depth = 3
Rgb = TRUE
INVARIANTS Independent Maps Laws Emit
CHECK_DEADLOCK FALSE
