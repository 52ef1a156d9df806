SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxW = 2 MaxH = 2
INVARIANTS Complete Stopped Covers Tight AllPixelsSeen Emit
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
