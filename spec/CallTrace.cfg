SPECIFICATION Spec
CONSTANT Aspects = {"value"}
INVARIANT TypeOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
