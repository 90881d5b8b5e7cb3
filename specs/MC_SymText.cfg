INIT Init
NEXT Next
INVARIANTS Fixed Gone Others Back Count
