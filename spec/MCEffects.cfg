SPECIFICATION Spec
CONSTANTS MaxW = 3 MaxH = 3 Vals = {0, 250} Radii = {2}
INVARIANTS InBounds LiftLaw GreyLaw InkLaw FlatLaw CleanLaw ColourLaw Emit
CHECK_DEADLOCK FALSE
