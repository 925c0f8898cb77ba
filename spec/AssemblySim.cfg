SPECIFICATION SimSpec
CONSTANTS
  N = 4
  Few = FALSE
  Gen = "sim"
  Noise = 3
INVARIANTS TypeOK Once Order NoSkip Whole Due Bounded NoDud Done Export
CHECK_DEADLOCK FALSE
