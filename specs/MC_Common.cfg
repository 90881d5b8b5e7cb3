INIT Init
NEXT Next
INVARIANTS Positions Self Texts
