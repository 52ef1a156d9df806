SPECIFICATION Spec
CONSTANT Step = 1031
INVARIANTS ExpLn ExpAdd LnMul Pows Mono Trig AtanOk DivMul TanhOk
CHECK_DEADLOCK FALSE
