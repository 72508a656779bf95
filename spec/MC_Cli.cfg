SPECIFICATION Spec
INVARIANTS TargetWins NoFileNoReport OrderFree WriteOut
CHECK_DEADLOCK FALSE
