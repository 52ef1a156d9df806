SPECIFICATION Spec
CONSTANTS MaxW = 3 MaxH = 3 Vals = {0, 256}
INVARIANTS Despeckle Snn Edges Blur Weights Emit
CHECK_DEADLOCK FALSE
