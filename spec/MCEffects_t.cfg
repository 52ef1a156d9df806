SPECIFICATION Spec
CONSTANTS MaxW = 3 MaxH = 2 Vals = {0, 90, 256} Radii = {1, 3, 5}
INVARIANTS InBounds LiftLaw GreyLaw InkLaw FlatLaw CleanLaw ColourLaw Emit
CHECK_DEADLOCK FALSE
