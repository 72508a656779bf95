SPECIFICATION Spec
CONSTANT CodePages <- CodePageFile
INVARIANTS ReadsBack Sound
VIEW View
