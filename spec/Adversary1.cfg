SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Wide = TRUE
INVARIANTS TypeOK Export
CHECK_DEADLOCK FALSE
