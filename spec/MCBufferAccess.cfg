SPECIFICATION Spec
CONSTANTS MaxW = 3 MaxH = 2 Depth = 3 Mode = "access"
INVARIANTS AllWellFormed GhostAgrees ReadsAgree Emit
PROPERTIES OneCell
CHECK_DEADLOCK FALSE
