SPECIFICATION Spec
INVARIANTS RoundTrip NoTrailing Damage CrcAgrees Check
CHECK_DEADLOCK FALSE
