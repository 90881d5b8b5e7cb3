INIT Init
NEXT Next
INVARIANTS Partition Positions Local Foreign Constructors
