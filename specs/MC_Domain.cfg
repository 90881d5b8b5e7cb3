INIT Init
NEXT Next
INVARIANTS Decided Tolerances Numbers Stronger Classes Parts Directions
