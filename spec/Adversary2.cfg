SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Wide = FALSE
INVARIANTS TypeOK Export
CHECK_DEADLOCK FALSE
