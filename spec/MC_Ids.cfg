SPECIFICATION Spec
INVARIANTS TextForm Packed DigestsMatch
