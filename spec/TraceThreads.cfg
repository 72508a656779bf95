SPECIFICATION Spec
VIEW View
POSTCONDITION WriteVerdicts
CHECK_DEADLOCK FALSE
