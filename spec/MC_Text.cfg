SPECIFICATION Spec
INVARIANTS Utf8 NotUtf8 Utf16 Paged
CHECK_DEADLOCK FALSE
