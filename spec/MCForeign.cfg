SPECIFICATION Spec
INVARIANTS ScaleI PngI CmykI LosslessI Emit
CHECK_DEADLOCK FALSE
