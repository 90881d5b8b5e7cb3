INIT Init
NEXT Next
INVARIANTS Representation Exists Parallels Described Decided
