SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS Range Drift Emit
PROPERTIES KeepsP StableP
CHECK_DEADLOCK FALSE
