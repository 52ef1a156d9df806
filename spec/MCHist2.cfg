SPECIFICATION Spec
CONSTANTS N = 3
 Half = 2
INVARIANTS Order Twice EqRange EqMonotone EqTop BalMonotone Ordered Emit
CHECK_DEADLOCK FALSE
