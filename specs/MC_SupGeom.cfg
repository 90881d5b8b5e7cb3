INIT Init
NEXT Next
INVARIANTS Below Positive Fixed Monotone
