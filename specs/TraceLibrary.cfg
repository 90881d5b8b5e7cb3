INIT Init
NEXT Next
INVARIANT Checked
