SPECIFICATION Spec
CONSTANTS
  N = 3
  Few = FALSE
  Gen = "no"
  Noise = 1
INVARIANTS TypeOK Once Order NoSkip Whole Due Bounded NoDud Done
CHECK_DEADLOCK FALSE
VIEW View
