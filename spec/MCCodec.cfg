SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS Range Drift Emit
PROPERTIES KeepsP StableP
CHECK_DEADLOCK FALSE
