SPECIFICATION Spec
CONSTANTS MaxW = 3 MaxH = 3 Depth = 2
INVARIANTS WF NothingNew Laws Orientation Permutation CropCrop Emit
CHECK_DEADLOCK FALSE
