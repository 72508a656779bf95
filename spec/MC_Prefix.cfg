SPECIFICATION Spec
CONSTANT CodePages <- CodePageFile
INVARIANTS Kept Warned
VIEW View
