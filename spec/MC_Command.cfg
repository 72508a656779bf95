SPECIFICATION Spec
INVARIANTS Starts OneArgument
