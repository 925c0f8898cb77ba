SPECIFICATION SimSpec
CONSTANTS
  Depth = 60
  Wide = TRUE
INVARIANTS TypeOK Export
CHECK_DEADLOCK FALSE
