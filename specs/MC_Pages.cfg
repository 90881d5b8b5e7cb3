INIT Init
NEXT Next
INVARIANTS Algebra Repair Series0
