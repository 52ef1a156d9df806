SPECIFICATION Spec
CONSTANTS MaxW = 6 MaxH = 5 MaxN = 7 Beyond = 3
INVARIANTS InsideIsPlain Monotone UnitPicks Emit
CHECK_DEADLOCK FALSE
