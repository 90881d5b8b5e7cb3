INIT Init
NEXT Next
INVARIANTS Sphere Even Grids Euler0
