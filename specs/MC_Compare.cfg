INIT Init
NEXT Next
INVARIANTS Symmetry Reflexive Monotone MonotoneRel Exact KeyOrder Objects Decided
