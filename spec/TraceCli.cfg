SPECIFICATION Spec
POSTCONDITION WriteVerdicts
CHECK_DEADLOCK FALSE
