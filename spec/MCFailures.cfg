SPECIFICATION Spec
INVARIANTS Right Typed FormatFirst Sound Requested Order Mend MendPlace MendSize OpenTotal Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
