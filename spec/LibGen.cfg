SPECIFICATION Spec
CONSTANTS
  Aspects = {"value", "acc", "prec"}
  NR = 2
  NV = 2
  NT = 2
  Depth = 3
INVARIANTS TypeOK RoundTrip Representables Printed
PROPERTY OneCell
CHECK_DEADLOCK FALSE
