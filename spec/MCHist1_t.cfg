SPECIFICATION Spec
CONSTANTS N = 4
 Half = 1
INVARIANTS Order Twice EqRange EqMonotone EqTop BalMonotone Ordered Emit
CHECK_DEADLOCK FALSE
