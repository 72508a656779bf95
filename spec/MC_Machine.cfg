SPECIFICATION Spec
CONSTANT CodePages <- CodePageFile
INVARIANTS TypeOK PathsUnique SizeBounded OneWay
PROPERTY GetsOn
VIEW View
