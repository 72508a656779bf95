SPECIFICATION Spec
CONSTANT CodePages <- CodePageFile
INVARIANTS Composed Nothing Defects Sizes
VIEW View
