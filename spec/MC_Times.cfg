SPECIFICATION Spec
INVARIANTS Counts Dates FileTimes Fat
