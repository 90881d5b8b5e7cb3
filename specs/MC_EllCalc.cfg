INIT Init
NEXT Next
INVARIANTS Support External Internal Inside Inclusions Polars Projections Measures Boundary Reflected Icosahedral
