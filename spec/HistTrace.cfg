SPECIFICATION Spec
CONSTANT Aspects = {"value", "acc", "prec"}
INVARIANT TypeOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
