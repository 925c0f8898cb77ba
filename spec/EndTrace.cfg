SPECIFICATION Spec
VIEW View
INVARIANT PropertyHolds
ALIAS Alias
CHECK_DEADLOCK FALSE
