SPECIFICATION Spec
VIEW View
CONSTRAINT Report
ALIAS Alias
CHECK_DEADLOCK FALSE
