CONSTANT N = 3
INIT Init
NEXT Next
INVARIANT Fine
