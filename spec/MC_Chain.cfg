SPECIFICATION Spec
CONSTANT CodePages <- CodePageFile
INVARIANTS Alone SizeLeads Exact
VIEW View
