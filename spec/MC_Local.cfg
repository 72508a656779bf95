SPECIFICATION Spec
CONSTANT CodePages <- CodePageFile
INVARIANTS Local SizeStays CommandStays LossWarned
VIEW View
