SPECIFICATION Spec
CONSTANTS MaxW = 3 MaxH = 3 Depth = 2 Mode = "edit"
INVARIANTS AllWellFormed GhostAgrees Emit
PROPERTIES MapKeepsSource FailedMapMakesNothing FailedEditKeepsTail
CHECK_DEADLOCK FALSE
