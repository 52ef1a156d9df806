SPECIFICATION Spec
CONSTANTS N = 3
 Contents = {1, 2}
INVARIANTS Emit
PROPERTIES Stable OneSlot ReturnKeeps
VIEW View
CHECK_DEADLOCK FALSE
