SPECIFICATION TraceSpec
CONSTANT CodePages <- CodePageFile
POSTCONDITION WriteVerdicts
INVARIANTS PathsUnique SizeBounded
VIEW TraceView
CHECK_DEADLOCK FALSE
