INIT Init
NEXT Next
INVARIANTS Achievable Predicates Raise Order Exact
