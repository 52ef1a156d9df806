SPECIFICATION Spec
CONSTANTS
  N = 2
  Calls = {"flip_vertical", "setitem", "mod_colors", "apply_palette_in_place", "blend", "compose", "new", "get_pixel"}
INVARIANTS Once TypeInv Emit
PROPERTIES KeepP
CHECK_DEADLOCK FALSE
