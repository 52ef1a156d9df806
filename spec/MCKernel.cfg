SPECIFICATION Spec
CONSTANTS MaxW = 4 MaxH = 3 MaxN = 5 Beyond = 2
INVARIANTS InsideIsPlain Monotone UnitPicks Emit
CHECK_DEADLOCK FALSE
