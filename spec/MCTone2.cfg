SPECIFICATION Spec
CONSTANTS Q = 3
 Ops = {"saturation", "stretch_saturation", "gamma_saturation", "lightness", "hue_rotate", "vibrance", "modulate"}
INVARIANTS InRange NeutralKeeps Independent Monotone Turns Sixth GreyIsGrey InvertTwice Emit
CHECK_DEADLOCK FALSE
