INIT Init
NEXT Next
INVARIANTS Surface KeepEuler KeepRim Progress
