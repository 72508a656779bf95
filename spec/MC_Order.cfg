SPECIFICATION Spec
CONSTANT CodePages <- CodePageFile
INVARIANTS Unordered
VIEW View
